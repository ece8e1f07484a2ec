CONSTANTS Absent = 99 NB = 4 NKeys = 5 NThreads = 3 MaxProg = 3 Wide = TRUE WaitForValue = TRUE Hist = TRUE
INIT Init
NEXT Next
INVARIANTS Emit Judged
CHECK_DEADLOCK FALSE
