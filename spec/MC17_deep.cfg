CONSTANTS
  V = 2
  MaxR = 4
  MaxH = 4
INIT Init
NEXT Next
INVARIANT Correct
CHECK_DEADLOCK FALSE
