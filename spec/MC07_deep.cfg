CONSTANTS
  MaxObjs = 3
  MaxVer = 3
  Depth = 0
  Track = FALSE
  Invalidate = TRUE
INIT Init
NEXT Next
INVARIANT Coherent
CHECK_DEADLOCK FALSE
