CONSTANTS
  V = 2
  MaxR = 3
  MaxH = 3
INIT Init
NEXT Next
INVARIANT Correct
CHECK_DEADLOCK FALSE
