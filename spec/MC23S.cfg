CONSTANTS Ops = 12 MaxSym = 5 MaxId = 7
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
