CONSTANTS MaxStates = 3 MaxArcs = 2 NA = 1 NR = 1
SPECIFICATION Spec
INVARIANTS NativeRound FstRound FstAnyOrder Damaged TensorRound
CHECK_DEADLOCK FALSE
