CONSTANTS
  MaxObjs = 3
  MaxVer = 2
  Depth = 0
  Track = FALSE
  Invalidate = TRUE
INIT Init
NEXT Next
INVARIANT Coherent
CHECK_DEADLOCK FALSE
