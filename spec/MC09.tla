-------------------------------- MODULE MC09 --------------------------------
(* Derivatives by posteriors agree with finite differences of the exact path  *)
(* sum: total(w + e on arc k) is affine in each arc's (exponentiated) weight. *)
EXTENDS K2Grad
CONSTANTS N, MaxArcs, W
VARIABLES F
Cnt(a, n) == [s \in 1..n |-> Cardinality({k \in 1..Len(a) : a[k][1] = s - 1})]
Mk(a) == [n |-> N, a |-> a, c |-> Cnt(a, N)]
Init == F = Mk(<<>>)
AddArc == Len(F.a) < MaxArcs /\ \E s \in 0..(N - 2), w \in W : \E d \in (s + 1)..(N - 1) :
            (F.a # <<>> => LET b == F.a[Len(F.a)] IN b[1] < s \/ (b[1] = s /\ b[2] <= d)) /\
            F' = Mk(Append(F.a, <<s, d, IF d = N - 1 THEN -1 ELSE 1, w>>))
Next == AddArc
Bump(k) == [F EXCEPT !.a[k][4] = 2 * @]     \* doubling an exponentiated weight adds the numerator once
Correct ==
  LET fw == Fwd(F, "log")  bw == Bwd(F, "log") IN
  /\ \A k \in 1..NArcs(F) : Tot(Bump(k), "log") - Tot(F, "log") = PostNum(F, "log", fw, bw, k)
  /\ \A k \in 1..NArcs(F), s \in States(F) :
       fw[s] > 0 => (S * (Fwd(Bump(k), "log")[s] - fw[s])) \div fw[s] = DFwd(F, "log", s)[k]
  /\ \A k \in 1..NArcs(F), s \in States(F) :
       bw[s] > 0 => (S * (Bwd(Bump(k), "log")[s] - bw[s])) \div bw[s] = DBwd(F, "log", s)[k]
  \* every complete path leaves the start once: the derivatives of the arcs leaving it add up to one
  /\ Tot(F, "log") > 0 => LET d == DFwd(F, "log", N - 1) IN
       Near(SumSeq([k \in 1..NArcs(F) |-> IF Src(F, k) = 0 THEN d[k] ELSE 0]), S, NArcs(F))
  \* tropical: with a unique best path the indicator is that path
  /\ (Tot(F, "trop") # NegInf /\ Ties(F, 0, N - 1) = 1) =>
       LET d == Share(F, "trop", 0, N - 1) IN \E p \in Paths(F) : {p[i] : i \in 1..Len(p)} = {k \in 1..NArcs(F) : d[k] = S}
=============================================================================
