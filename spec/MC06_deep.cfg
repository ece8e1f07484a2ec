CONSTANTS
  N = 3
  Steps = 3
  Vals = {3, 7}
INIT Init
NEXT Next
INVARIANTS Total Follows
CHECK_DEADLOCK FALSE
