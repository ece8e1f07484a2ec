CONSTANTS MaxSym = 2 MaxId = 3 MaxTabs = 3 MaxSteps = 6
SPECIFICATION Spec
INVARIANTS Good ReadBack MergeBoth MergeRight AddAnswers
PROPERTY Monotone
CHECK_DEADLOCK FALSE
