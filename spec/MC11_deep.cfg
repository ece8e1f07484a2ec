CONSTANTS
  N = 4
  MaxArcs = 4
  W = {0, 1, 3}
  MaxPaths = 5
INIT Init
NEXT Next
INVARIANTS SamplesFair NeverStuck PruneKeepsBest
CHECK_DEADLOCK FALSE
