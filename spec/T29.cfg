CONSTANTS
 Failing <- TFailing
 Step <- TStep
 St0 <- T29Init
INIT TInit
NEXT TNext
CHECK_DEADLOCK FALSE
