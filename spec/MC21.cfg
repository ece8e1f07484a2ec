CONSTANTS
  MaxItems = 7
  Depths = {2, 3}
  Vals = {0, 1, 3}
INIT Init
NEXT Next
INVARIANTS ArgMaxIsMax MinMax Sums Bits SortPossible UniquePossible PruneLaws SelectAdd
CHECK_DEADLOCK FALSE
