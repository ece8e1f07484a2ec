--------------------------------- MODULE T28 ---------------------------------
(* Recorded equivalence tests and random automata.                           *)
EXTENDS TraceBase, K2Equiv
Want(ev) ==
  IF Len(ev.a) # Len(ev.b) THEN "no" ELSE
  LET V == {Verdict(ev.a[i], ev.b[i], ev.m, ev.eps = 1, ev.d, ev.h, ev.npath) : i \in 1..Len(ev.a)} IN
  IF "no" \in V THEN "no" ELSE IF "any" \in V THEN "any" ELSE "yes"
TFailing(ev, s) ==
  IF "err" \in DOMAIN ev THEN {"Raised:" \o ev.err}
  ELSE IF ev.op = "equiv" THEN
    LET w == Want(ev) IN
    (IF w = "yes" /\ ev.res # 1 THEN {"EquivalentIsAccepted"} ELSE {}) \cup
    (IF w = "no" /\ ev.res # 0 THEN {"DifferentIsRefused"} ELSE {})
  ELSE   \* random
    (IF ev.vec = 1 /\ ~(Len(ev.f) \in ev.nlo..ev.nhi) THEN {"BatchSize"} ELSE {}) \cup
    (IF ev.finite # 1 THEN {"FiniteScores"} ELSE {}) \cup
    UNION {RandomFsaClauses(ev.f[i], ev.acyclic = 1, ev.maxsym, ev.lo, ev.hi) : i \in 1..Len(ev.f)}
TStep(ev, s) == s
=============================================================================
