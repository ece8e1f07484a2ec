CONSTANTS MaxStates = 4 MaxArcs = 2 NA = 2 NR = 2
SPECIFICATION Spec
INVARIANTS NativeRound FstRound FstAnyOrder Damaged TensorRound
CHECK_DEADLOCK FALSE
