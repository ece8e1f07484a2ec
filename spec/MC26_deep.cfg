CONSTANTS
  Middle = 2
  Sort = TRUE
  MaxSeq = 3
SPECIFICATION Spec
INVARIANT Right
CHECK_DEADLOCK FALSE
