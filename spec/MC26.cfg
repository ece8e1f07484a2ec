CONSTANTS
  Middle = 2
  Sort = TRUE
  MaxSeq = 2
SPECIFICATION Spec
INVARIANT Right
CHECK_DEADLOCK FALSE
