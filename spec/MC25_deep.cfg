CONSTANTS
  MaxLen = 6
  Alphabet = {1, 2, 3}
SPECIFICATION Spec
INVARIANTS OneRoot Right
CHECK_DEADLOCK FALSE
