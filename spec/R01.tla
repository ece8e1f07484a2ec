--------------------------------- MODULE R01 ---------------------------------
(* Recorded calls of intersect, intersect_device and compose against the     *)
(* product transition system.                                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, K2Product

Pos(m, off) == [k \in 1..Len(m) |-> IF m[k] = -1 THEN 0 ELSE m[k] - off + 1]
AllWF(S) == \A i \in 1..Len(S) : WellFormed(S[i])
ArcOff(S, i) == FoldLeft(LAMBDA x, y : x + Len(y.a), 0, SubSeq(S, 1, i - 1))

\* the i-th result, with the arc maps cut out of the batch and rebased
One(ev, i) ==
  LET A == ev.a.f[ev.ai[i] + 1]  B == ev.b.f[ev.bi[i] + 1]  C == ev.out.f[i]
      co == ArcOff(ev.out.f, i)
      ao == ArcOff(ev.a.f, ev.ai[i] + 1)  bo == ArcOff(ev.b.f, ev.bi[i] + 1)
      m1 == Pos(SubSeq(ev.out.ma, co + 1, co + Len(C.a)), ao)
      m2 == Pos(SubSeq(ev.out.mb, co + 1, co + Len(C.a)), bo)
  IN ProductClauses(A, B, C, m1, m2, ev.special = 1) \cup
     (IF ev.lang = 1 /\ A.n > 0 /\ B.n > 0 /\ ~LangEqProduct(A, B, C, 3, ev.special = 1)
      THEN {"LanguageProduct"} ELSE {})

\* composition: labels are those of a, aux labels those of b, inner labels the matched ones
ComposeLabels(ev) ==
  LET n == Len(ev.out.ma) IN
  /\ Len(ev.out.lab) = n /\ Len(ev.out.aux) = n
  /\ \A k \in 1..n :
       LET i == ev.out.ma[k]  j == ev.out.mb[k] IN
       /\ ev.out.lab[k] = (IF i = -1 THEN 0 ELSE ev.alab[i + 1])
       /\ ev.out.aux[k] = (IF j = -1 THEN 0 ELSE ev.baux[j + 1])
       /\ ev.inner = 1 => ev.out.inn[k] = (IF i # -1 THEN ev.aaux[i + 1] ELSE ev.blab[j + 1])

Clauses(ev) ==
  LET tot == FoldLeft(LAMBDA x, y : x + Len(y.a), 0, ev.out.f) IN
  IF ~AllWF(ev.out.f) THEN {"WellFormed"}
  ELSE IF Len(ev.out.f) # Len(ev.ai) \/ ev.out.vec # ev.vec THEN {"BatchShape"}
  ELSE IF Len(ev.out.ma) # tot \/ Len(ev.out.mb) # tot THEN {"ArcMapLength"}
  ELSE IF \E k \in 1..tot : ev.out.ma[k] < -1 \/ ev.out.mb[k] < -1 THEN {"ArcMapRange"}
  ELSE IF ev.op = "compose" /\ \E k \in 1..tot : ev.out.ma[k] >= Len(ev.alab) \/ ev.out.mb[k] >= Len(ev.blab)
       THEN {"ArcMapRange"}
  ELSE UNION {One(ev, i) : i \in 1..Len(ev.out.f)} \cup
       (IF ev.op = "compose" /\ ~ComposeLabels(ev) THEN {"ComposeLabels"} ELSE {}) \cup
       (IF ev.out.same # 1 THEN {"ScoresAreArcScores"} ELSE {})

TFailing(ev, s) ==
  IF "err" \in DOMAIN ev
  THEN (IF ev.mayfail = 1 THEN {} ELSE {"Raised:" \o ev.err})
  ELSE IF ev.mustfail = 1 THEN {"InvalidInputAccepted"} ELSE Clauses(ev)
TStep(ev, s) == s
=============================================================================
