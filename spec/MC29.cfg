CONSTANTS Handles = {n1, n2, n3}
 Labels = {1, 2}
 MaxCells = 4
SPECIFICATION Spec
INVARIANTS Refines SharesCells
CHECK_DEADLOCK FALSE
