-------------------------------- MODULE MC11 --------------------------------
(* Sampling by arithmetic coding on every small acyclic automaton: sample i  *)
(* of n descends from the start state with the point (2i+1)/2n of the        *)
(* cumulative distribution, in exact integer arithmetic (positions are in    *)
(* units of 1/2n of the total weight of the state).                          *)
EXTENDS K2Path
CONSTANTS N, MaxArcs, W, MaxPaths
VARIABLES F, n, done, cur, num, den
\* cur: prefix of the sample under way; num/den: its point in [0,1) below the current state
Cnt(a, k) == [s \in 1..k |-> Cardinality({j \in 1..Len(a) : a[j][1] = s - 1})]
Mk(a) == [n |-> N, a |-> a, c |-> Cnt(a, N)]
Init == F = Mk(<<>>) /\ n = 0 /\ done = <<>> /\ cur = <<>> /\ num = 0 /\ den = 0
AddArc ==
  /\ n = 0 /\ Len(F.a) < MaxArcs
  /\ \E s \in 0..(N - 2), w \in W : \E d \in (s + 1)..(N - 1) :
       /\ F.a # <<>> => LET b == F.a[Len(F.a)] IN b[1] < s \/ (b[1] = s /\ b[2] <= d)
       /\ F' = Mk(Append(F.a, <<s, d, IF d = N - 1 THEN -1 ELSE 1, w>>))
  /\ UNCHANGED <<n, done, cur, num, den>>
Start == n = 0 /\ Tot(F, "log") > 0 /\ \E k \in 1..MaxPaths : n' = k /\ num' = 1 /\ den' = 2 * k /\ UNCHANGED <<F, done, cur>>
Mass(bw, k) == Wt(F, k) * bw[Dst(F, k)]
Below(bw, s, k) == SumSeq([j \in 1..(k - 1) |-> IF Src(F, j) = s THEN Mass(bw, j) ELSE 0])
Descend ==
  /\ n > 0 /\ Len(done) < n
  /\ LET bw == Bwd(F, "log")  s == EndOf(F, cur)  B == bw[s] IN
     \E k \in 1..NArcs(F) :
       /\ Src(F, k) = s /\ Mass(bw, k) > 0
       \* cdf(k) <= num/den < cdf(k) + mass(k)/B
       /\ Below(bw, s, k) * den <= num * B /\ num * B < (Below(bw, s, k) + Mass(bw, k)) * den
       /\ IF Dst(F, k) = N - 1
          THEN done' = Append(done, Append(cur, k)) /\ cur' = <<>> /\ num' = 2 * (Len(done) + 1) + 1 /\ den' = 2 * n
          ELSE cur' = Append(cur, k) /\ num' = num * B - Below(bw, s, k) * den /\ den' = Mass(bw, k) * den /\ UNCHANGED done
  /\ UNCHANGED <<F, n>>
Next == AddArc \/ Start \/ Descend
SamplesFair == n > 0 /\ Len(done) = n => SampleClauses(F, n, done) = {}
NeverStuck == n > 0 /\ Len(done) < n => ENABLED Descend
Thresholds == {<<1, 2>>, <<1, 3>>, <<1, 5>>, <<9, 10>>}
\* pruning below the posterior of the best path keeps that path
PruneKeepsBest ==
  n = 0 => \A t \in Thresholds : \A p \in Paths(F) :
     WalkW(F, "log", p) * t[2] >= t[1] * Tot(F, "log") /\ Tot(F, "log") > 0 => {p[i] : i \in 1..Len(p)} \subseteq MayKeep(F, t[1], t[2])
=============================================================================
