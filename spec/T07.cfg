CONSTANTS
  Failing <- TFailing
  Step <- TStep
  St0 <- T7Init
INIT TInit
NEXT TNext
