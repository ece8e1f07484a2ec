CONSTANTS
  MaxT = 5
  MaxS = 4
INIT Init
NEXT Next
INVARIANT Correct
CHECK_DEADLOCK FALSE
