CONSTANTS
  Failing <- TFailing
  Step <- TStep
  St0 <- T14Init
INIT TInit
NEXT TNext
