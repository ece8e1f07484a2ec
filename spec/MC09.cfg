CONSTANTS
  N = 4
  MaxArcs = 4
  W = {1, 2, 3}
INIT Init
NEXT Next
INVARIANT Correct
CHECK_DEADLOCK FALSE
