CONSTANTS
  Shapes <- DeepShapes
  Wts <- DeepW
INIT Init
NEXT Next
INVARIANT Correct
CHECK_DEADLOCK FALSE
