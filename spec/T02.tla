--------------------------------- MODULE T02 ---------------------------------
(* Recorded rational operations against their languages.                     *)
EXTENDS TraceBase, K2Rational
LL == 3
Shape(ev, nf, vec) ==
  IF Len(ev.out.f) # nf \/ ev.out.vec # vec THEN {"BatchShape"}
  ELSE IF \E i \in 1..Len(ev.out.f) : ~ValidFsa(ev.out.f[i]) THEN {"ValidResult"}
  ELSE IF ev.out.same # 1 THEN {"ScoresAreArcScores"} ELSE {}
Sig(S) == UNION {Labels(S[i]) : i \in 1..Len(S)} \ {0}

\* source arcs keep label (final -1 may become epsilon: fin) and score; inserted arcs are free
ArcsKept(O, I, m, fin) ==
  \A k \in 1..Len(m) :
    IF m[k] = -1 THEN O[k][3] \in {0, -1} /\ O[k][4] = 0
    ELSE LET a == I[m[k] + 1] IN O[k][4] = a[4] /\ O[k][3] = (IF fin THEN Unfinal(a[3]) ELSE a[3])
KeepsUseful(S, m) ==
  \A i \in 1..Len(S) : \A k \in UsefulArcs(S[i]) :
     Cardinality({j \in 1..Len(m) : m[j] = ArcOff(S, i) + k - 1}) = 1

Generic(ev, fin) ==
  IF Len(ev.out.m) # NumArcs(ev.out.f) \/ ~MapInto(ev.out.m, NumArcs(ev.f)) THEN {"ArcMap"}
  ELSE (IF ArcsKept(Flat(ev.out.f), Flat(ev.f), ev.out.m, fin) THEN {} ELSE {"ArcLabelScore"}) \cup
       (IF KeepsUseful(ev.f, ev.out.m) THEN {} ELSE {"EverySourceArcOnce"}) \cup
       AttrClauses(ev.attrs, ev.out.attrs, ev.out.m, NumArcs(ev.f))

UnionF(ev) ==
  LET s == Shape(ev, 1, 0) IN IF s # {} THEN s ELSE
  Generic(ev, FALSE) \cup
  (IF Lang(ev.out.f[1], LL, Sig(ev.f), TRUE) = UnionLang(ev.f, LL, Sig(ev.f)) THEN {} ELSE {"UnionLanguage"})
ClosureF(ev) ==
  LET s == Shape(ev, 1, 0) IN IF s # {} THEN s ELSE
  Generic(ev, TRUE) \cup
  (LET got == Lang(ev.out.f[1], LL, Sig(ev.f), TRUE) IN
   IF got = StarLang(ev.f[1], LL, Sig(ev.f)) THEN {}
   ELSE IF Reentrant(ev.f[1]) /\ got = Lang(ClosureInPlace(ev.f[1]), LL, Sig(ev.f), TRUE)
        THEN {"StarLanguageReentrantStart"} ELSE {"StarLanguage"}) \cup
  (IF \E i \in 1..Len(ev.out.attrs) : ev.out.attrs[i].name = "aux_labels" /\ ev.out.attrs[i].kind = "int"
      THEN LET aux == Attr(ev.out.attrs, "aux_labels").v  O == ev.out.f[1].a IN
           (IF Len(aux) = Len(O) /\ \A k \in 1..Len(O) : (aux[k] = -1) <=> (O[k][3] = -1) THEN {} ELSE {"AuxFinal"})
      ELSE {})
ReverseF(ev) ==
  LET s == Shape(ev, Len(ev.f), ev.vec) IN IF s # {} THEN s ELSE
  Generic(ev, TRUE) \cup
  (IF \A i \in 1..Len(ev.f) : Lang(ev.out.f[i], LL, Sig(ev.f), TRUE) = ReverseLang(ev.f[i], LL, Sig(ev.f))
   THEN {} ELSE {"MirroredLanguage"})

ReplaceF(ev) ==
  LET s == Shape(ev, Len(ev.i), ev.ivec) IN IF s # {} THEN s ELSE
  LET n == NumArcs(ev.out.f)  O == Flat(ev.out.f)  S == Flat(ev.f)  I == Flat(ev.i)
      ms == ev.out.ms  mi == ev.out.mi
      sg == Sig(ev.f) \cup Sig(ev.i) IN
  IF Len(ms) # n \/ Len(mi) # n \/ ~MapInto(ms, Len(S)) \/ ~MapInto(mi, Len(I)) THEN {"ArcMap"}
  ELSE
   (IF \A k \in 1..n :
        IF mi[k] # -1
        THEN ms[k] = -1 /\ O[k][4] = I[mi[k] + 1][4] /\
             LET q == I[mi[k] + 1][3] IN O[k][3] = (IF q >= ev.sb /\ q < ev.sb + Len(ev.f) THEN 0 ELSE q)
        ELSE ms[k] # -1 /\ O[k][4] = S[ms[k] + 1][4] /\ O[k][3] = Unfinal(S[ms[k] + 1][3])
    THEN {} ELSE {"ArcLabelScore"}) \cup
   (IF \A k \in 1..Len(I) : Cardinality({j \in 1..n : mi[j] = k - 1}) = 1 THEN {} ELSE {"EveryIndexArcOnce"}) \cup
   AttrClauses(ev.attrs, ev.out.attrs, ms, Len(S)) \cup AttrClauses(ev.iattrs, ev.out.iattrs, mi, Len(I)) \cup
   (IF "shared" \in DOMAIN ev /\ ~(\A k \in 1..n : ev.out.shared[k] =
         (IF ms[k] = -1 THEN 0 ELSE ev.shared[1][ms[k] + 1]) + (IF mi[k] = -1 THEN 0 ELSE ev.shared[2][mi[k] + 1]))
    THEN {"SharedAttributeSum"} ELSE {}) \cup
   (IF \A i \in 1..Len(ev.i) : SameLang(ev.out.f[i], ReplaceRef(ev.i[i], ev.f, ev.sb), LL, sg)
    THEN {} ELSE {"SubstitutedLanguage"})

\* ----------------------------------------------------------------- linear
Bare(F) == <<F.n, F.a>>
LinearF(ev) ==
  LET s == Shape(ev, Len(ev.seqs), ev.vec) IN IF s # {} THEN s ELSE
  (IF \A i \in 1..Len(ev.seqs) : Bare(ev.out.f[i]) = Bare(LinearRef(ev.seqs[i])) THEN {} ELSE {"LinearArcs"}) \cup
  (IF ev.op = "linear_fst" /\
      ev.out.aux # FoldLeft(LAMBDA x, y : x \o Append(y, -1), <<>>, ev.aux) THEN {"LinearAux"} ELSE {})

Pos(s) == SelectSeq(s, LAMBDA x : x > 0)
\* the result without its self-loops; aux and loops looked at per arc
NoLoops(F) == SelectSeq([k \in 1..NArcs(F) |-> k], LAMBDA k : Src(F, k) # Dst(F, k))
LoopsOk(F) == \A s \in 0..(F.n - 2) :
   Cardinality({k \in 1..NArcs(F) : Src(F, k) = s /\ Dst(F, k) = s}) = 1 /\
   \A k \in 1..NArcs(F) : (Src(F, k) = s /\ Dst(F, k) = s) => Lab(F, k) = 0 /\ Wt(F, k) = 0
\* groups of source arcs: a group ends after each arc with a nonzero label
Groups(labs) ==
  FoldLeft(LAMBDA g, k : IF k > 1 /\ labs[k - 1] = 0 THEN [g EXCEPT ![Len(g)] = Append(@, k)] ELSE Append(g, <<k>>),
           <<>>, [k \in 1..Len(labs) |-> k])
SelfLoopsF(ev) ==
  LET s == Shape(ev, Len(ev.f), ev.vec) IN IF s # {} THEN s ELSE
  UNION {LET F == ev.f[i]  C == ev.out.f[i]
             labs == [k \in 1..NArcs(F) |-> Lab(F, k)]
             nl == NoLoops(C)
             want == Pos(labs)
             o == ArcOff(ev.out.f, i)  b == ArcOff(ev.f, i)
             g == Groups(labs)
         IN IF ~LoopsOk(C) THEN {"OneSelfLoopPerState"}
            ELSE IF [k \in 1..Len(nl) |-> Lab(C, nl[k])] # Append(want, -1) \/ C.n # Len(want) + 2
                    \/ ~(\A k \in 1..Len(nl) : Src(C, nl[k]) = k - 1 /\ Dst(C, nl[k]) = k) THEN {"LinearLabels"}
            ELSE IF ev.op = "linear_fsa_with_self_loops"
                 THEN (IF \A k \in 1..NArcs(C) : Wt(C, k) = 0 THEN {} ELSE {"ZeroScores"})
                 ELSE IF Len(ev.out.aux) # NumArcs(ev.out.f) THEN {"AuxCount"}
                 ELSE (IF \A k \in 1..NArcs(C) : Src(C, k) = Dst(C, k) => ev.out.aux[o + k] = <<>> THEN {} ELSE {"LoopAux"}) \cup
                      (IF Len(g) = Len(nl) /\ \A k \in 1..Len(nl) :
                           /\ ev.out.aux[o + nl[k]] = Pos([j \in 1..Len(g[k]) |-> ev.aux[b + g[k][j]]])
                           /\ Wt(C, nl[k]) = SumSeq([j \in 1..Len(g[k]) |-> Wt(F, g[k][j])])
                       THEN {} ELSE {"GroupAuxScore"})
         : i \in 1..Len(ev.f)}

TFailing(ev, s) ==
  IF "err" \in DOMAIN ev THEN {"Raised:" \o ev.err}
  ELSE CASE ev.op = "union" -> UnionF(ev)
         [] ev.op = "closure" -> ClosureF(ev)
         [] ev.op = "reverse" -> ReverseF(ev)
         [] ev.op = "replace_fsa" -> ReplaceF(ev)
         [] ev.op \in {"linear_fsa", "linear_fst"} -> LinearF(ev)
         [] ev.op \in {"linear_fsa_with_self_loops", "linear_fst_with_self_loops"} -> SelfLoopsF(ev)
         [] OTHER -> {"UnknownOp"}
TStep(ev, s) == s
=============================================================================
