CONSTANTS
  K = 4
  Mode = "log"
  Eps = TRUE
  H = 0
  Raw = TRUE
SPECIFICATION Spec
INVARIANTS Sound Complete
CHECK_DEADLOCK FALSE
