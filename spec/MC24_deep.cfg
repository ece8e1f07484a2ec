CONSTANTS Absent = 99 NB = 4 NKeys = 3 NThreads = 3 MaxProg = 1 Wide = FALSE WaitForValue = TRUE Hist = FALSE
INIT Init
NEXT Next
INVARIANTS OneSlotPerKey Judged NoStop
CHECK_DEADLOCK FALSE
