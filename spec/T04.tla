--------------------------------- MODULE T04 ---------------------------------
(* Recorded epsilon removals and determinizations.                           *)
EXTENDS TraceBase, K2Derive
LL == 4
CutIds(ev, i) == LET o == ArcOff(ev.out.f, i)  b == ArcOff(ev.f, i) IN
  [k \in 1..Len(ev.out.f[i].a) |-> [j \in 1..Len(ev.out.ids[o + k]) |-> ev.out.ids[o + k][j] - b]]

RmOne(ev, i) ==
  LET F == ev.f[i]  C == ev.out.f[i]  ids == CutIds(ev, i)
      sig == (Labels(F) \cup Labels(C)) \ {0} IN
  IF ~IdsIn(ids, NArcs(F)) THEN {"ArcMap"}
  ELSE (IF RmEpsArcs(F, C, ids) THEN {} ELSE {"ArcIsEpsilonPath"}) \cup
       (IF ev.loops = 0 THEN (IF EpsFree(C) THEN {} ELSE {"EpsilonFree"})
        ELSE (IF EpsFreeButLoops(C) THEN {} ELSE {"EpsilonFree"}) \cup
             (IF \A s \in 0..(C.n - 2) : Cardinality({k \in 1..NArcs(C) : Src(C, k) = s /\ Lab(C, k) = 0}) = 1 THEN {} ELSE {"OneLoopPerState"})) \cup
       (IF Lang(F, LL, sig, TRUE) = Lang(C, LL, sig, TRUE) THEN {} ELSE {"BestPathLanguage"})

DetF(ev, i) ==
  LET F == Scale(ev.f[i], ev.unit)  C == ev.out.f[i]  ids == CutIds(ev, i)
      sig == Labels(F) \cup Labels(C) IN
  (IF DeterministicArcs(C) THEN {} ELSE {"Deterministic"}) \cup
  (IF NearLang(Lang(F, LL, sig, FALSE), Lang(C, LL, sig, FALSE), ev.tol) THEN {} ELSE {"StringWeights"}) \cup
  (IF ~IdsIn(ids, NArcs(F)) THEN {"ArcMap"}
   ELSE IF PathsAreSourcePaths(F, C, ids, LL + 1, FALSE) THEN {} ELSE {"SourceArcSequence"}) \cup
  (IF ev.push = "none" /\ IdsIn(ids, NArcs(F)) /\
      ~(\A k \in 1..NArcs(C) : Wt(C, k) = SumSeq([j \in 1..Len(ids[k]) |-> Wt(F, ids[k][j])])) THEN {"ScoreIsSumOfSources"} ELSE {}) \cup
  (IF ev.push # "none" /\ IdsIn(ids, NArcs(F)) /\   \* the chosen sources carry the weight of the string in any case
      ~(\A p \in BPaths(C, LL + 1) :
          LET q == ConcatSeq([j \in 1..Len(p) |-> ids[p[j]]])
              d == PathW(C, p) - SumSeq([j \in 1..Len(q) |-> Wt(F, q[j])]) IN d <= ev.tol /\ -d <= ev.tol) THEN {"PathScoreIsSumOfSources"} ELSE {})

TFailing(ev, s) ==
  IF "err" \in DOMAIN ev THEN {"Raised:" \o ev.err}
  ELSE IF Len(ev.out.f) # Len(ev.f) \/ ev.out.vec # ev.vec THEN {"BatchShape"}
  ELSE IF \E i \in 1..Len(ev.out.f) : ~ValidFsa(ev.out.f[i]) THEN {"ValidResult"}
  ELSE IF Len(ev.out.ids) # NumArcs(ev.out.f) \/ ~IdsIn(ev.out.ids, NumArcs(ev.f)) THEN {"ArcMap"}
  ELSE (IF ev.out.same # 1 THEN {"ScoresAreArcScores"} ELSE {}) \cup
       (IF ev.out.dense = 1
        THEN AttrClauses(ev.attrs, ev.out.attrs,
               [k \in 1..Len(ev.out.ids) |-> IF ev.out.ids[k] = <<>> THEN -1 ELSE ev.out.ids[k][1] - 1], NumArcs(ev.f))
        ELSE {"Attribute:" \o x : x \in RagAttrBad(ev.attrs, ev.out.attrs, ev.out.ids, Flat(ev.f), ev.rm = 1, ev.zeros = 1)}) \cup
       UNION {IF ev.op = "determinize" THEN DetF(ev, i) ELSE RmOne(ev, i) : i \in 1..Len(ev.f)}
TStep(ev, s) == s
=============================================================================
