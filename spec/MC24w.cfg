CONSTANTS Absent = 99 NB = 4 NKeys = 2 NThreads = 2 MaxProg = 2 Wide = TRUE WaitForValue = TRUE Hist = FALSE
INIT Init
NEXT Next
INVARIANTS OneSlotPerKey Judged NoStop
CHECK_DEADLOCK FALSE
