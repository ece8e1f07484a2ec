CONSTANTS Handles = {n1, n2, n3}
 Labels = {1, 2, 3}
 MaxCells = 5
SPECIFICATION Spec
INVARIANTS Refines SharesCells
CHECK_DEADLOCK FALSE
