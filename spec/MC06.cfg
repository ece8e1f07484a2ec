CONSTANTS
  N = 2
  Steps = 2
  Vals = {3, 7}
INIT Init
NEXT Next
INVARIANTS Total Follows
CHECK_DEADLOCK FALSE
