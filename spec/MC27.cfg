CONSTANTS States_ = 3 Elements = 3 Shared = FALSE
SPECIFICATION Spec
INVARIANT ElementWise
CHECK_DEADLOCK FALSE
