CONSTANTS
  Failing <- TFailing
  Step <- TStep
  St0 <- T6Init
INIT TInit
NEXT TNext
