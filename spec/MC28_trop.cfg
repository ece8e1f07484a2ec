CONSTANTS
  K = 3
  Mode = "trop"
  Eps = TRUE
  H = 3
  Raw = FALSE
SPECIFICATION Spec
INVARIANTS Sound Complete
CHECK_DEADLOCK FALSE
