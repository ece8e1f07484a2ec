CONSTANTS
  Failing <- TFailing
  Step <- TStep
  St0 = 0
INIT TInit
NEXT TNext
CHECK_DEADLOCK FALSE
