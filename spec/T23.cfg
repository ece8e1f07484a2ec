CONSTANTS Failing <- TFailing
 Step <- TStep
 St0 <- T23Init
INIT TInit
NEXT TNext
CHECK_DEADLOCK FALSE
