------------------------------- MODULE K2Equiv -------------------------------
(* Equivalence of acyclic, topologically sorted automata as weighted string  *)
(* relations, the sampling test for it, and what random automata are.        *)
(* Modes as in K2Score; with eps the label 0 is the empty string.            *)
EXTENDS K2Score

Spell(F, p, eps) == SelectSeq([i \in 1..Len(p) |-> Lab(F, p[i])], LAMBDA x : ~eps \/ x # 0)
\* weight of every string: a function on the strings of the paths P of F
StrWeights(F, m, P, eps) ==
  LET S == {Spell(F, p, eps) : p \in P} IN
  [s \in S |-> PathSum(F, m, {p \in P : Spell(F, p, eps) = s})]
WAt(W, m, s) == IF s \in DOMAIN W THEN W[s] ELSE Zero(m)
\* equal up to d (tropical weights; sums have to be the same)
Near(m, x, y, d) ==
  IF m = "log" \/ x = NegInf \/ y = NegInf THEN x = y ELSE (x - y) <= d /\ (y - x) <= d
Differing(WA, WB, m, d) == {s \in DOMAIN WA \cup DOMAIN WB : ~Near(m, WAt(WA, m, s), WAt(WB, m, s), d)}
SumOf(W, m) == FoldSet(LAMBDA s, x : Add(m, x, W[s]), Zero(m), DOMAIN W)
\* weight w lies within the beam of the total t.  h = 0: no beam; tropical: the beam is h/2, h odd;
\* log: the beam is log(h/2), h odd
InBeam(m, w, t, h) ==
  IF h = 0 THEN TRUE ELSE IF m = "trop" THEN w # NegInf /\ 2 * w >= 2 * t - h ELSE w * h > 2 * t
Checked(WA, WB, m, h, S) ==
  {s \in S : \/ s \in DOMAIN WA /\ InBeam(m, WA[s], SumOf(WA, m), h)
             \/ s \in DOMAIN WB /\ InBeam(m, WB[s], SumOf(WB, m), h)}

UsefulLabels(F) == LET U == Useful(F) IN {Lab(F, k) : k \in {j \in 1..NArcs(F) : Src(F, j) \in U /\ Dst(F, j) \in U}}
\* one over the probability that a walk over the useful arcs is p
Rarity(F, U, p) == FoldLeft(LAMBDA x, k : x * Cardinality({j \in 1..NArcs(F) : Src(F, j) = Src(F, k) /\ Dst(F, j) \in U}), 1, p)
Likely(F, P, eps, S, npath) ==
  LET U == Useful(F) IN \E p \in P : Spell(F, p, eps) \in S /\ 80 * Rarity(F, U, p) <= npath

(* verdicts: what the answer has to be ("any" where sampling may miss or the *)
(* difference is one the beam excludes)                                      *)
Verdict(A, B, m, eps, d, h, npath) ==
  LET PA == Paths(A)  PB == Paths(B)
      WA == StrWeights(A, m, PA, eps)  WB == StrWeights(B, m, PB, eps)
      D == Differing(WA, WB, m, d)  C == Checked(WA, WB, m, h, D) IN
  IF D = {} THEN "yes"
  ELSE IF (PA = {}) # (PB = {}) THEN "no"
  ELSE IF Likely(A, PA, eps, C, npath) \/ Likely(B, PB, eps, C, npath) THEN "no"
  ELSE "any"

(* weight of the paths of F against a chain of labelled, weighted arcs, by   *)
(* the product of the two (label 0 moves on one side only when eps)          *)
RECURSIVE Against(_, _, _, _, _, _)
Against(F, m, eps, c, s, i) ==
  LET own == IF s = Final(F) /\ i > Len(c) THEN One(m) ELSE Zero(m)
      fe == IF ~eps THEN Zero(m) ELSE
            FoldLeft(LAMBDA x, a : IF a[1] = s /\ a[3] = 0 THEN Add(m, x, Mul(m, a[4], Against(F, m, eps, c, a[2], i))) ELSE x, Zero(m), F.a)
      ce == IF ~eps \/ i > Len(c) THEN Zero(m)
            ELSE IF c[i][1] # 0 THEN Zero(m) ELSE Mul(m, c[i][2], Against(F, m, eps, c, s, i + 1))
      mt == IF i > Len(c) THEN Zero(m) ELSE IF eps /\ c[i][1] = 0 THEN Zero(m) ELSE
            FoldLeft(LAMBDA x, a : IF a[1] = s /\ a[3] = c[i][1]
                                   THEN Add(m, x, Mul(m, Mul(m, a[4], c[i][2]), Against(F, m, eps, c, a[2], i + 1))) ELSE x, Zero(m), F.a)
  IN Add(m, Add(m, own, fe), Add(m, ce, mt))

(* ------------------------------------------------------ random automata *)
RandomFsaClauses(F, acyclic, maxsym, lo, hi) ==
  IF ~ValidFsa(F) THEN {"Valid"} ELSE
  (IF acyclic => Upward(F) THEN {} ELSE {"Acyclic"}) \cup
  (IF \A k \in 1..NArcs(F) : Dst(F, k) # Final(F) => Lab(F, k) \in 0..maxsym THEN {} ELSE {"SymbolRange"}) \cup
  (IF NArcs(F) \in lo..hi THEN {} ELSE {"ArcCount"})
=============================================================================
