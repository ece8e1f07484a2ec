-------------------------------- MODULE MC08 --------------------------------
(* The one-pass recursions equal the definition over paths, for every acyclic *)
(* automaton within the bounds (states grow arc by arc).                      *)
EXTENDS K2Score
CONSTANTS N, MaxArcs, W
VARIABLES F, m
Cnt(a, n) == [s \in 1..n |-> Cardinality({k \in 1..Len(a) : a[k][1] = s - 1})]
Mk(a) == [n |-> N, a |-> a, c |-> Cnt(a, N)]
Wts == IF m = "trop" THEN W \cup {NegInf} ELSE {x \in W : x > 0} \cup {0}
Init == m \in {"trop", "log"} /\ F = Mk(<<>>)
AddArc ==
  /\ Len(F.a) < MaxArcs
  /\ \E s \in 0..(N - 2), w \in Wts : \E d \in (s + 1)..(N - 1) :
       /\ F.a # <<>> => LET b == F.a[Len(F.a)] IN b[1] < s \/ (b[1] = s /\ b[2] <= d)
       /\ F' = Mk(Append(F.a, <<s, d, IF d = N - 1 THEN -1 ELSE 1, w>>))
  /\ m' = m
Next == AddArc
Correct ==
  LET o == Offs(F)  fw == Fwd(F, m)  bw == Bwd(F, m) IN
  /\ \A s \in States(F) : fw[s] = PathSum(F, m, WalksTo(F, o, 0, s)) /\ bw[s] = PathSum(F, m, WalksTo(F, o, s, N - 1))
  /\ fw[N - 1] = bw[0]
  /\ Tot(F, m) = PathSum(F, m, Paths(F))
  /\ \A k \in 1..NArcs(F) :
       LET through == PathSum(F, m, {p \in Paths(F) : \E i \in 1..Len(p) : p[i] = k}) IN
       PostNum(F, m, fw, bw, k) = through
  \* the posteriors leaving the start state add up to one
  /\ m = "log" => SumSeq([k \in 1..NArcs(F) |-> IF Src(F, k) = 0 THEN Post(F, m)[k] ELSE 0]) = Tot(F, m)
  /\ m = "trop" /\ Tot(F, m) # NegInf =>
       (\E k \in 1..NArcs(F) : Src(F, k) = 0 /\ Post(F, m)[k] = 0) /\ (\A k \in 1..NArcs(F) : Post(F, m)[k] <= 0)
=============================================================================
