CONSTANTS
  MaxObjs = 5
  MaxVer = 1000
  Depth = 12
  Track = TRUE
  Invalidate = TRUE
INIT Init
NEXT Next
INVARIANTS Coherent Emit
CHECK_DEADLOCK FALSE
