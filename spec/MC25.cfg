CONSTANTS
  MaxLen = 4
  Alphabet = {1, 2}
SPECIFICATION Spec
INVARIANTS OneRoot Right
CHECK_DEADLOCK FALSE
