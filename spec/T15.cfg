CONSTANTS
  Failing <- TFailing
  Step <- TStep
  St0 <- T15Init
INIT TInit
NEXT TNext
