CONSTANTS States_ = 4 Elements = 2 Shared = FALSE
SPECIFICATION Spec
INVARIANT ElementWise
CHECK_DEADLOCK FALSE
