CONSTANTS Failing <- TFailing
 Step <- TStep
 Absent = 77777
 St0 <- T24Init
INIT TInit
NEXT TNext
CHECK_DEADLOCK FALSE
