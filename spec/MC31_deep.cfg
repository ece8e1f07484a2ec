CONSTANTS
  T = 2
  V = 3
  H = 1
  Rows = 1
SPECIFICATION Spec
INVARIANTS Wide Below One
CHECK_DEADLOCK FALSE
