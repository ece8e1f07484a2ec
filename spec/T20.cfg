CONSTANTS
  Failing <- TFailing
  Step <- TStep
  St0 <- T20Init
INIT TInit
NEXT TNext
CHECK_DEADLOCK FALSE
