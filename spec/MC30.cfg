CONSTANTS
  MaxArcs = 3
  Loops = TRUE
  Off = TRUE
  Outs = 2
SPECIFICATION Spec
INVARIANTS RescoredRight ChosenRight
CHECK_DEADLOCK FALSE
