CONSTANTS KA = 4
 KB = 4
 SPECIALS = {TRUE, FALSE}
 L = 3
INIT Init
NEXT Next
INVARIANTS TypeOK DenotesProduct AcceptedByTraceSpec RejectsMissingArc
