CONSTANTS
  MaxT = 3
  MaxS = 3
INIT Init
NEXT Next
INVARIANT Correct
CHECK_DEADLOCK FALSE
