CONSTANTS K = 8
 L = 4
INIT Init
NEXT Next
INVARIANTS UnionDenotes ClosureDenotes InPlaceDenotes ReverseDenotes ReplaceDenotes
