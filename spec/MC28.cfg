CONSTANTS
  K = 3
  Mode = "log"
  Eps = TRUE
  H = 0
  Raw = FALSE
SPECIFICATION Spec
INVARIANTS Sound Complete
CHECK_DEADLOCK FALSE
