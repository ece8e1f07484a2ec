CONSTANTS Ops = 8 Elements = 4 MaxBatch = 4
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
