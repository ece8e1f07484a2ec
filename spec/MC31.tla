-------------------------------- MODULE MC31 --------------------------------
(* The frame-synchronous beam search: with a beam wide enough for every       *)
(* continuation the weight of a hypothesis is the sum over all alignments;    *)
(* with beam 1 and no merging it is the greedy search; the kept weight never  *)
(* exceeds the exact one.                                                     *)
EXTENDS K2Search
CONSTANTS T, V, H, Rows
VARIABLES frames, s1, sk, k
vars == <<frames, s1, sk, k>>
P == [V |-> V, H |-> H, blank |-> 0, unk |-> 0]
K == 4
RowSet == {r \in [1..V -> 0..K] : FoldLeft(LAMBDA x, y : x + y, 0, r) = K /\ (Rows = 0 \/ \A i \in 1..V : r[i] # 2)}
Start == [amb |-> FALSE, D |-> [x \in {<<>>} |-> 1]]
Init == frames = <<>> /\ s1 = Start /\ sk = Start /\ k \in {2, V ^ (T + 1)}
Frame ==
  /\ Len(frames) < T
  /\ \E f \in [1..(V ^ H) -> RowSet] :
       /\ frames' = Append(frames, f)
       /\ s1' = BeamStep(P, 1, s1, f)
       /\ sk' = BeamStep(P, k, sk, f)
  /\ UNCHANGED k
Done == Len(frames) = T /\ UNCHANGED vars
Next == Frame \/ Done
Spec == Init /\ [][Next]_vars
\* all ways to choose a token in every frame
Ali == [1..Len(frames) -> 0..(V - 1)]
After(a) == FoldLeft(LAMBDA z, i : [ys |-> Grow(P, z.ys, a[i]), w |-> z.w * frames[i][CtxOf(P, z.ys) + 1][a[i] + 1]], [ys |-> <<>>, w |-> 1], [i \in 1..Len(frames) |-> i])
Exact(ys) == FoldSet(LAMBDA a, x : x + (LET r == After(a) IN IF r.ys = ys THEN r.w ELSE 0), 0, Ali)
Wide == k > 2 => ~sk.amb /\ \A ys \in DOMAIN sk.D : sk.D[ys] = Exact(ys)
Below == ~sk.amb => \A ys \in DOMAIN sk.D : sk.D[ys] <= Exact(ys)
One == ~s1.amb => DOMAIN s1.D \subseteq Greedy(P, frames)
=============================================================================
