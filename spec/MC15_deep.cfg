CONSTANTS
  MaxT = 3
  V = 3
  H = 2
  W = {0, 2}
INIT Init
NEXT Next
INVARIANT Correct
CHECK_DEADLOCK FALSE
