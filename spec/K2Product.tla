------------------------------ MODULE K2Product ------------------------------
(* Intersection as exploration of state pairs: the transition relation of    *)
(* the product and the relation between a product automaton that the         *)
(* implementation returns (with its arc maps) and that transition system.    *)
EXTENDS K2Wfsa

\* moves of the product from the pair <<p, q>>: <<arc of A or 0, arc of B or 0>>
Moves(A, oa, B, ob, p, q, special) ==
  {<<i, j>> \in OutOf(A, oa, p) \X OutOf(B, ob, q) :
       Lab(A, i) = Lab(B, j) /\ ~(special /\ Lab(A, i) = 0)}
  \cup (IF special THEN
          {<<i, 0>> : i \in {k \in OutOf(A, oa, p) : Lab(A, k) = 0}} \cup
          {<<0, j>> : j \in {k \in OutOf(B, ob, q) : Lab(B, k) = 0}}
        ELSE {})
MoveTo(A, B, p, q, m) == <<IF m[1] = 0 THEN p ELSE Dst(A, m[1]), IF m[2] = 0 THEN q ELSE Dst(B, m[2])>>
MoveLab(A, B, m) == IF m[1] # 0 THEN Lab(A, m[1]) ELSE Lab(B, m[2])
MoveW(A, B, m) == (IF m[1] = 0 THEN 0 ELSE Wt(A, m[1])) + (IF m[2] = 0 THEN 0 ELSE Wt(B, m[2]))

(* m1, m2: arc maps into A and B (positions, 0 = none), one entry per arc of C *)
MapsOk(A, B, C, m1, m2) ==
  /\ Len(m1) = NArcs(C) /\ Len(m2) = NArcs(C)
  /\ \A k \in 1..NArcs(C) : m1[k] \in 0..NArcs(A) /\ m2[k] \in 0..NArcs(B) /\ m1[k] + m2[k] > 0

RECURSIVE PairFix(_, _, _, _, _, _)
PairFix(A, B, C, m1, m2, pr) ==
  LET nx == FoldLeft(LAMBDA v, k :
              IF v[Src(C, k)] # <<-1, -1>> /\ v[Dst(C, k)] = <<-1, -1>>
              THEN [v EXCEPT ![Dst(C, k)] = MoveTo(A, B, v[Src(C, k)][1], v[Src(C, k)][2], <<m1[k], m2[k]>>)]
              ELSE v, pr, [k \in 1..NArcs(C) |-> k])
  IN IF nx = pr THEN pr ELSE PairFix(A, B, C, m1, m2, nx)
PairOf(A, B, C, m1, m2) ==
  PairFix(A, B, C, m1, m2,
          [s \in States(C) |-> IF s = 0 THEN <<0, 0>>
                               ELSE IF s = Final(C) THEN <<Final(A), Final(B)>> ELSE <<-1, -1>>])

\* every arc of C is a move of the product, with that label and weight
Sound(A, B, C, m1, m2, pr, special) ==
  \A k \in 1..NArcs(C) :
    LET s == pr[Src(C, k)]  m == <<m1[k], m2[k]>> IN
    /\ s # <<-1, -1>>
    /\ (m[1] # 0 => Src(A, m[1]) = s[1]) /\ (m[2] # 0 => Src(B, m[2]) = s[2])
    /\ (m[1] # 0 /\ m[2] # 0) => Lab(A, m[1]) = Lab(B, m[2]) /\ ~(special /\ Lab(A, m[1]) = 0)
    /\ (m[1] = 0 \/ m[2] = 0) => special /\ MoveLab(A, B, m) = 0
    /\ pr[Dst(C, k)] = MoveTo(A, B, s[1], s[2], m)
    /\ (Dst(C, k) = Final(C)) = (MoveTo(A, B, s[1], s[2], m) = <<Final(A), Final(B)>>)

\* pairs from which the pair of final states can be reached
RECURSIVE ProdReach(_, _, _, _, _, _, _)
ProdReach(A, oa, B, ob, special, seen, frontier) ==
  LET new == (UNION {{MoveTo(A, B, s[1], s[2], m) : m \in Moves(A, oa, B, ob, s[1], s[2], special)} : s \in frontier}) \ seen
  IN IF new = {} THEN seen ELSE ProdReach(A, oa, B, ob, special, seen \cup new, new)
ProdStates(A, B, special) == ProdReach(A, Offs(A), B, Offs(B), special, {<<0, 0>>}, {<<0, 0>>})
ProdEdges(A, B, special, S) ==
  LET oa == Offs(A)  ob == Offs(B) IN
  UNION {{<<s, MoveTo(A, B, s[1], s[2], m)>> : m \in Moves(A, oa, B, ob, s[1], s[2], special)} : s \in S}
ProdCoAcc(A, B, special, S) ==
  LET E == {<<e[2], e[1]>> : e \in ProdEdges(A, B, special, S)}
      f == <<Final(A), Final(B)>>
  IN IF f \in S THEN ReachFrom(E, {f}, {f}) ELSE {}

\* every move towards a successful end occurs exactly once
Complete(A, B, C, m1, m2, pr, special) ==
  LET oa == Offs(A)  ob == Offs(B)  oc == Offs(C)
      S == ProdStates(A, B, special)
      co == ProdCoAcc(A, B, special, S)
  IN \A s \in States(C) \ {Final(C)} :
       pr[s] # <<-1, -1>> =>
       LET p == pr[s][1]  q == pr[s][2]
           want == {m \in Moves(A, oa, B, ob, p, q, special) : MoveTo(A, B, p, q, m) \in co}
           have == {<<m1[k], m2[k]>> : k \in OutOf(C, oc, s)}
       IN want \subseteq have /\ Cardinality(have) = oc[s + 1] - oc[s]

ProductClauses(A, B, C, m1, m2, special) ==
  IF A.n = 0 \/ B.n = 0 THEN (IF NonEmptyLang(C) THEN {"EmptyTimesAnything"} ELSE {})
  ELSE IF ~MapsOk(A, B, C, m1, m2) THEN {"ArcMapRange"}
  ELSE IF C.n < 2 THEN (IF C.n = 0 /\ <<0, 0>> \notin ProdCoAcc(A, B, special, ProdStates(A, B, special))
                        THEN {} ELSE {"ProductStates"})
  ELSE LET pr == PairOf(A, B, C, m1, m2) IN
    (IF \A k \in 1..NArcs(C) : Lab(C, k) = MoveLab(A, B, <<m1[k], m2[k]>>) THEN {} ELSE {"MatchedLabel"}) \cup
    (IF \A k \in 1..NArcs(C) : Wt(C, k) = MoveW(A, B, <<m1[k], m2[k]>>) THEN {} ELSE {"ScoreIsSum"}) \cup
    (IF Sound(A, B, C, m1, m2, pr, special) THEN {} ELSE {"ProductSound"}) \cup
    (IF Complete(A, B, C, m1, m2, pr, special) THEN {} ELSE {"ProductComplete"})

(* language product of two acceptors, both with the epsilon treatment given *)
LangEqProduct(A, B, C, L, special) ==
  LET Sig == (Labels(A) \cup Labels(B) \cup Labels(C)) IN
  LET la == Lang(A, L, Sig, special)  lb == Lang(B, L, Sig, special)  lc == Lang(C, L, Sig, special)
  IN lc = {<<x[1], x[2] + (CHOOSE y \in lb : y[1] = x[1])[2]>> : x \in {z \in la : \E y \in lb : y[1] = z[1]}}
=============================================================================
