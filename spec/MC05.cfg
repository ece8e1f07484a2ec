CONSTANTS N = 3
 K = 2
INIT Init
NEXT Next
INVARIANTS ScanAgrees ValidMeansFormat AcyclicMeansNoCycle DetMeansDet ConnectedHasFlags
