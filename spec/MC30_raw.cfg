CONSTANTS
  MaxArcs = 2
  Loops = FALSE
  Off = TRUE
  Outs = 2
SPECIFICATION Spec
INVARIANTS RescoredRight ChosenRight
CHECK_DEADLOCK FALSE
