--------------------------------- MODULE R10 ---------------------------------
(* Shortest paths.  Result arcs name their source arcs by the attribute "id". *)
EXTENDS Integers, Sequences, FiniteSets, TLC, K2Path, K2Attr
AOff(S, i) == SumSeq([j \in 1..(i - 1) |-> Len(S[j].a)])
Elem(ev, i, ids) ==       \* ids: 1-based positions in the whole input batch, one per result arc of element i
  LET F == ev.f[i]  O == ev.out.f[i]
      p == [k \in 1..Len(ids) |-> ids[k] - AOff(ev.f, i)]
      best == Tot(F, "trop") IN
  (IF WellFormed(O) /\ ValidFsa(O) THEN {} ELSE {"Invalid"}) \cup
  (IF Linear(O) THEN {} ELSE {"NotLinear"}) \cup
  IF best = NegInf THEN (IF O.a = <<>> \/ (IsPath(F, p) /\ WalkW(F, "trop", p) = NegInf) THEN {} ELSE {"NotEmpty"})
  ELSE IF O.a = <<>> THEN {"EmptyThoughPathExists"}
  ELSE IF ~IsPath(F, p) THEN {"NotAPath"}
  ELSE (IF WalkW(F, "trop", p) = best THEN {} ELSE {"NotBest"}) \cup
       (IF \A k \in 1..Len(p) : O.a[k][3] = Lab(F, p[k]) THEN {} ELSE {"Labels"}) \cup
       (IF \A k \in 1..Len(p) : O.a[k][4] = Wt(F, p[k]) THEN {} ELSE {"Scores"})
TFailing(ev, s) ==
  LET S == ev.f  o == ev.out IN
  IF "err" \in DOMAIN ev THEN {"Raised:" \o ev.err}
  ELSE IF \E i \in 1..Len(S) : ~ValidFsa(S[i]) \/ ~Upward(S[i]) THEN {"Input"}
  ELSE (IF ev.f2 = S THEN {} ELSE {"OperandChanged"}) \cup
  IF Len(o.f) # Len(S) THEN {"NumberOfAutomata"}
  ELSE LET N == NumArcs(o.f)  id == Attr(o.attrs, "id") IN
  IF ~Has(o.attrs, "id") \/ Len(id.v) # N THEN {"Attribute:id"}
  ELSE IF \E k \in 1..N : id.v[k] \notin 1..NumArcs(S) THEN {"ArcMap"}
  ELSE UNION {Elem(ev, i, SubSeq(id.v, AOff(o.f, i) + 1, AOff(o.f, i + 1))) : i \in 1..Len(S)} \cup
       AttrClauses(ev.attrs, o.attrs, [k \in 1..N |-> id.v[k] - 1], NumArcs(S)) \cup
       \* scores flow back to exactly the arcs of the chosen paths
       (IF o.grad = <<>> \/ o.grad = [a \in 1..NumArcs(S) |-> Cardinality({k \in 1..N : id.v[k] = a})] THEN {} ELSE {"Gradient"})
TStep(ev, s) == s
=============================================================================
