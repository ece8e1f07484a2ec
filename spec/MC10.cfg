CONSTANTS
  N = 4
  MaxArcs = 4
  W = {0, 1}
INIT Init
NEXT Next
INVARIANT Correct
CHECK_DEADLOCK FALSE
