CONSTANTS K = 10
 L = 5
INIT Init
NEXT Next
INVARIANTS EpsRemoved Determinized Bounded
