-------------------------------- MODULE MC10 --------------------------------
(* Backtracking along best entering arcs: whichever best entering arc is     *)
(* recorded for each state, walking back from the final state ends at the    *)
(* start state with a path of the best score.                                *)
EXTENDS K2Path
CONSTANTS N, MaxArcs, W
VARIABLES F, pc, at, path
Cnt(a, n) == [s \in 1..n |-> Cardinality({k \in 1..Len(a) : a[k][1] = s - 1})]
Mk(a) == [n |-> N, a |-> a, c |-> Cnt(a, N)]
Init == F = Mk(<<>>) /\ pc = "grow" /\ at = N - 1 /\ path = <<>>
AddArc ==
  /\ pc = "grow" /\ Len(F.a) < MaxArcs
  /\ \E s \in 0..(N - 2), w \in W \cup {NegInf} : \E d \in (s + 1)..(N - 1) :
       /\ F.a # <<>> => LET b == F.a[Len(F.a)] IN b[1] < s \/ (b[1] = s /\ b[2] <= d)
       /\ F' = Mk(Append(F.a, <<s, d, IF d = N - 1 THEN -1 ELSE 1, w>>))
  /\ UNCHANGED <<pc, at, path>>
Freeze == pc = "grow" /\ Tot(F, "trop") # NegInf /\ pc' = "back" /\ UNCHANGED <<F, at, path>>
Back ==
  /\ pc = "back" /\ at # 0
  /\ LET fw == Fwd(F, "trop") IN
     \E k \in 1..NArcs(F) : BestEntering(F, fw, at, k) /\ path' = <<k>> \o path /\ at' = Src(F, k)
  /\ UNCHANGED <<F, pc>>
Next == AddArc \/ Freeze \/ Back
Correct ==
  pc = "back" =>
    /\ IsWalk(F, path)
    \* the part walked so far is worth what the final state is worth beyond the current state
    /\ Plus(Fwd(F, "trop")[at], WalkW(F, "trop", path)) = Tot(F, "trop")
    /\ (at = 0 => IsPath(F, path) /\ WalkW(F, "trop", path) = PathSum(F, "trop", Paths(F)))
    /\ (at # 0 => \E k \in 1..NArcs(F) : BestEntering(F, Fwd(F, "trop"), at, k))
=============================================================================
