--------------------------------- MODULE T11 ---------------------------------
(* Sampling paths and pruning on posteriors (scores are logs of integers).   *)
EXTENDS TraceBase, K2Path, K2Attr
AOff(S, i) == SumSeq([j \in 1..(i - 1) |-> Len(S[j].a)])
Sample(ev) ==
  IF Len(ev.out) # Len(ev.f) THEN {"NumberOfAutomata"}
  ELSE UNION {SampleClauses(ev.f[i], ev.n, [j \in 1..Len(ev.out[i]) |-> [k \in 1..Len(ev.out[i][j]) |-> ev.out[i][j][k] + 1 - AOff(ev.f, i)]]) : i \in 1..Len(ev.f)}
PruneElem(F, O, p, num, den, tie) ==     \* p: positions in F of the arcs of O
  LET K == {p[k] : k \in 1..Len(p)} IN
  IF \E x \in K : x \notin 1..NArcs(F) THEN {"ArcMap"}
  ELSE (IF MustKeep(F, num, den) \subseteq K THEN {} ELSE {"KeptArcMissing"}) \cup
  (IF \A k \in tie : k \in MayKeep(F, num, den) => k \in K THEN {} ELSE {"ArcAtThresholdPruned"}) \cup
  (IF K \subseteq MayKeep(F, num, den) THEN {} ELSE {"PrunedArcKept"}) \cup
  (IF \A k \in 1..(Len(p) - 1) : p[k] < p[k + 1] THEN {} ELSE {"ArcOrder"}) \cup
  (IF WellFormed(O) /\ ValidFsa(O) /\ O.n = F.n THEN {} ELSE {"States"}) \cup
  (IF O.a = [k \in 1..Len(p) |-> F.a[p[k]]] THEN {} ELSE {"Arcs"})
Prune(ev) ==
  LET S == ev.f  o == ev.out  N == NumArcs(o.f)  id == Attr(o.attrs, "id") IN
  IF Len(o.f) # Len(S) THEN {"NumberOfAutomata"}
  ELSE IF ~Has(o.attrs, "id") \/ Len(id.v) # N THEN {"Attribute:id"}
  ELSE UNION {PruneElem(S[i], o.f[i], [k \in 1..Len(o.f[i].a) |-> id.v[AOff(o.f, i) + k] - AOff(S, i)], ev.num, ev.den,
              {k \in 1..Len(S[i].a) : \E j \in 1..Len(ev.tie) : ev.tie[j] + 1 = AOff(S, i) + k}) : i \in 1..Len(S)} \cup
       AttrClauses(ev.attrs, o.attrs, [k \in 1..N |-> id.v[k] - 1], NumArcs(S))
TFailing(ev, s) ==
  IF "err" \in DOMAIN ev THEN {"Raised:" \o ev.err}
  ELSE IF \E i \in 1..Len(ev.f) : ~ValidFsa(ev.f[i]) \/ ~Upward(ev.f[i]) THEN {"Input"}
  ELSE (IF ev.f2 = ev.f THEN {} ELSE {"OperandChanged"}) \cup
  (IF ev.op = "sample" THEN Sample(ev) ELSE IF ev.op = "prune" THEN Prune(ev) ELSE {"UnknownOp"})
TStep(ev, s) == s
=============================================================================
