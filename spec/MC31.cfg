CONSTANTS
  T = 3
  V = 2
  H = 1
  Rows = 0
SPECIFICATION Spec
INVARIANTS Wide Below One
CHECK_DEADLOCK FALSE
