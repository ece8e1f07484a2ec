CONSTANTS N = 3
 K = 3
INIT Init
NEXT Next
INVARIANTS ScanAgrees ValidMeansFormat AcyclicMeansNoCycle DetMeansDet ConnectedHasFlags
