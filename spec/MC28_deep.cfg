CONSTANTS
  K = 4
  Mode = "log"
  Eps = TRUE
  H = 3
  Raw = FALSE
SPECIFICATION Spec
INVARIANTS Sound Complete
CHECK_DEADLOCK FALSE
