CONSTANTS KA = 3
 KB = 3
 SPECIALS = {TRUE, FALSE}
 L = 3
INIT Init
NEXT Next
INVARIANTS TypeOK DenotesProduct AcceptedByTraceSpec RejectsMissingArc
