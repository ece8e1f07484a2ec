CONSTANTS
  V = 2
  MaxT = 6
  MaxY = 3
INIT Init
NEXT Next
INVARIANT Correct
CHECK_DEADLOCK FALSE
