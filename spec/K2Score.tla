------------------------------- MODULE K2Score -------------------------------
(* Scores of acyclic, topologically sorted automata.                         *)
(* mode "trop": best path, weights add (NegInf = no path);                   *)
(* mode "log" : sum over paths, weights are exponentiated integers that      *)
(*              multiply (0 = no path / a score of minus infinity).          *)
EXTENDS K2Wfsa

One(m) == IF m = "trop" THEN 0 ELSE 1
Zero(m) == IF m = "trop" THEN NegInf ELSE 0
Mul(m, x, y) == IF m = "trop" THEN Plus(x, y) ELSE x * y
Add(m, x, y) == IF m = "trop" THEN Max2(x, y) ELSE x + y

\* arcs are grouped by source state and lead upwards, so one pass suffices
Fwd(F, m) == FoldLeft(LAMBDA V, a : [V EXCEPT ![a[2]] = Add(m, @, Mul(m, V[a[1]], a[4]))],
                      [s \in States(F) |-> IF s = 0 THEN One(m) ELSE Zero(m)], F.a)
Bwd(F, m) == FoldRight(LAMBDA a, V : [V EXCEPT ![a[1]] = Add(m, @, Mul(m, V[a[2]], a[4]))],
                       F.a, [s \in States(F) |-> IF s = Final(F) THEN One(m) ELSE Zero(m)])
Tot(F, m) == IF F.n = 0 THEN Zero(m) ELSE Fwd(F, m)[Final(F)]
\* trop: score of the best path through arc k minus the best score;
\* log : the numerator of the posterior (the sum of the paths through the arc)
PostNum(F, m, fw, bw, k) == Mul(m, Mul(m, fw[Src(F, k)], Wt(F, k)), bw[Dst(F, k)])
Post(F, m) ==
  IF F.n = 0 THEN <<>> ELSE
  LET fw == Fwd(F, m)  bw == Bwd(F, m)  t == fw[Final(F)] IN
  [k \in 1..NArcs(F) |->
     LET p == PostNum(F, m, fw, bw, k) IN
     IF m = "log" THEN p
     ELSE IF t = NegInf \/ p = NegInf THEN NegInf ELSE p - t]
\* k (1-based position, 0 = none) is a best arc entering state s
BestEntering(F, fw, s, k) ==
  IF k = 0 THEN ~\E j \in 1..NArcs(F) : Dst(F, j) = s /\ Plus(fw[Src(F, j)], Wt(F, j)) # NegInf
  ELSE k \in 1..NArcs(F) /\ Dst(F, k) = s /\ Plus(fw[Src(F, k)], Wt(F, k)) = fw[s]
Upward(F) == \A k \in 1..NArcs(F) : Src(F, k) < Dst(F, k)
FlatV(S, V(_)) == FoldLeft(LAMBDA x, F : x \o (IF F.n = 0 THEN <<>> ELSE LET v == V(F) IN [s \in 1..F.n |-> v[s - 1]]), <<>>, S)
FlatA(S, V(_)) == FoldLeft(LAMBDA x, F : x \o V(F), <<>>, S)

\* definition by paths (what the recursions compute)
PathSum(F, m, P) ==
  IF m = "trop" THEN FoldSet(LAMBDA p, x : Max2(x, FoldLeft(LAMBDA y, k : Plus(y, Wt(F, k)), 0, p)), NegInf, P)
  ELSE FoldSet(LAMBDA p, x : x + FoldLeft(LAMBDA y, k : y * Wt(F, k), 1, p), 0, P)
RECURSIVE WalksTo(_, _, _, _)    \* arc sequences from state s to state t
WalksTo(F, offs, s, t) ==
  (IF s = t THEN {<<>>} ELSE {}) \cup
  UNION {{<<k>> \o p : p \in WalksTo(F, offs, Dst(F, k), t)} : k \in OutOf(F, offs, s)}
=============================================================================
