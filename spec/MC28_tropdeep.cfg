CONSTANTS
  K = 4
  Mode = "trop"
  Eps = FALSE
  H = 3
  Raw = FALSE
SPECIFICATION Spec
INVARIANTS Sound Complete
CHECK_DEADLOCK FALSE
