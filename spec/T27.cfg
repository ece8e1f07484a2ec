CONSTANTS
  Failing <- TFailing
  Step <- TStep
  St0 <- T27Init
INIT TInit
NEXT TNext
CHECK_DEADLOCK FALSE
