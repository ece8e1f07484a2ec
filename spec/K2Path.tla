-------------------------------- MODULE K2Path --------------------------------
(* Single paths: best ones, sampled ones, and pruning by posteriors.         *)
EXTENDS K2Score
IsWalk(F, p) == (\A i \in 1..Len(p) : p[i] \in 1..NArcs(F)) /\ (\A i \in 1..(Len(p) - 1) : Dst(F, p[i]) = Src(F, p[i + 1]))
IsPath(F, p) == Len(p) > 0 /\ IsWalk(F, p) /\ Src(F, p[1]) = 0 /\ Dst(F, p[Len(p)]) = Final(F)
WalkW(F, m, p) == FoldLeft(LAMBDA y, k : Mul(m, y, Wt(F, k)), One(m), p)
Linear(O) == O.n = 0 \/ (Len(O.a) = O.n - 1 /\ \A k \in 1..Len(O.a) : O.a[k][1] = k - 1 /\ O.a[k][2] = k)

(* n equally spaced points of the cumulative distribution over the paths:    *)
(* any set of paths that is an interval of it (all those that begin with one *)
(* prefix) receives its share of the points up to one.                       *)
Begins(p, q) == Len(q) <= Len(p) /\ SubSeq(p, 1, Len(q)) = q
CountPrefix(P, q) == Cardinality({i \in 1..Len(P) : Begins(P[i], q)})
AbsV(x) == IF x < 0 THEN -x ELSE x
EndOf(F, q) == IF q = <<>> THEN 0 ELSE Dst(F, q[Len(q)])
FairShare(F, bw, T, n, P, q) ==
  \A k \in 1..NArcs(F) : Src(F, k) = EndOf(F, q) =>
     AbsV(CountPrefix(P, Append(q, k)) * T - n * WalkW(F, "log", q) * Wt(F, k) * bw[Dst(F, k)]) <= T
SampleClauses(F, n, P) ==      \* P: sequence of arc sequences
  LET T == Tot(F, "log") IN
  (IF Len(P) = (IF T = 0 THEN 0 ELSE n) THEN {} ELSE {"NumberOfPaths"}) \cup
  (IF \A i \in 1..Len(P) : IsPath(F, P[i]) THEN
     (IF \A i \in 1..Len(P) : WalkW(F, "log", P[i]) > 0 THEN {} ELSE {"ImpossiblePath"}) \cup
     (IF T = 0 \/ Len(P) # n THEN {} ELSE
        LET bw == Bwd(F, "log") IN
        IF \A q \in UNION {{SubSeq(P[i], 1, j) : j \in 0..(Len(P[i]) - 1)} : i \in 1..Len(P)} : FairShare(F, bw, T, n, P, q)
        THEN {} ELSE {"SamplingProbability"})
   ELSE {"NotAPath"})

\* arcs whose posterior is at least num/den; equality is left open (rounding)
MustKeep(F, num, den) == LET T == Tot(F, "log") P == Post(F, "log") IN {k \in 1..NArcs(F) : T > 0 /\ P[k] * den > num * T}
MayKeep(F, num, den) == LET T == Tot(F, "log") P == Post(F, "log") IN {k \in 1..NArcs(F) : T > 0 /\ P[k] * den >= num * T}
=============================================================================
