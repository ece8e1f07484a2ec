CONSTANTS
  N = 3
  MaxArcs = 3
  MaxT = 2
  C = 2
  W = {0, 2}
INIT Init
NEXT Next
INVARIANT Correct
CHECK_DEADLOCK FALSE
