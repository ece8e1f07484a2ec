CONSTANTS
  MaxItems = 9
  Depths = {2, 3, 4}
INIT Init
NEXT Next
INVARIANTS ViewsDetermine UnstackStack UnstackAll ComposeDecompose UnsqueezeRemove CatSplit IndexAll DropEmpty TransposeTwice CatMaps CoverLaw LayersCompose
CHECK_DEADLOCK FALSE
