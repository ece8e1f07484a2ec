CONSTANTS
  N = 4
  MaxArcs = 5
  W = {1, 2}
INIT Init
NEXT Next
INVARIANT Correct
CHECK_DEADLOCK FALSE
