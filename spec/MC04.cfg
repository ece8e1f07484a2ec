CONSTANTS K = 10
 L = 4
INIT Init
NEXT Next
INVARIANTS EpsRemoved Determinized Bounded
