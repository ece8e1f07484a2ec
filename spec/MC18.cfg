CONSTANTS
  Shapes <- QuickShapes
  Wts <- QuickW
INIT Init
NEXT Next
INVARIANT Correct
CHECK_DEADLOCK FALSE
