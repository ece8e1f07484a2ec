CONSTANTS NWorkers = 2 NClients = 2 NTasks = 2 MaxOps = 3 NotifyAll = TRUE Spurious = FALSE
INIT Init
NEXT Next
INVARIANTS Once Enough NeverStuck AllRun
CHECK_DEADLOCK FALSE
