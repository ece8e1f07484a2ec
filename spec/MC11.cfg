CONSTANTS
  N = 3
  MaxArcs = 4
  W = {0, 1, 3}
  MaxPaths = 4
INIT Init
NEXT Next
INVARIANTS SamplesFair NeverStuck PruneKeepsBest
CHECK_DEADLOCK FALSE
