CONSTANTS NWorkers = 2 NClients = 2 NTasks = 3 MaxOps = 4 NotifyAll = TRUE Spurious = TRUE
INIT Init
NEXT Next
INVARIANTS Once Enough NeverStuck AllRun
CHECK_DEADLOCK FALSE
