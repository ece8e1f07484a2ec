CONSTANTS K = 4
 L = 3
INIT Init
NEXT Next
INVARIANTS UnionDenotes ClosureDenotes InPlaceDenotes ReverseDenotes ReplaceDenotes
