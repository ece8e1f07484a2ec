CONSTANTS
  MaxT = 4
  C = 2
  W = {0, 1, 3}
  Back = 2
INIT Init
NEXT Next
INVARIANT Correct
CHECK_DEADLOCK FALSE
