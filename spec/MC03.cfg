CONSTANTS K = 10
 B = 5
INIT Init
NEXT Next
INVARIANTS ConnectRight SortRight Tight
