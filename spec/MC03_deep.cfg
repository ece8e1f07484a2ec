CONSTANTS K = 10
 B = 7
INIT Init
NEXT Next
INVARIANTS ConnectRight SortRight Tight
