-------------------------------- MODULE K2Lev --------------------------------
(* Edit distance and the automata the library computes it with.  Weights are  *)
(* in units of 1/1000; q is the score of a self loop, so that an insertion     *)
(* costs 500 - (q of the reference) and a deletion 500 - (q of the hypothesis).*)
EXTENDS K2Wfsa
Half == 500
Graph(y, q) ==
  LET n == Len(y)
      at(i) == <<<<<<i, i, 0, q>>, 0>>, <<<<i, i + 1, 0, -Half>>, y[i + 1]>>, <<<<i, i + 1, y[i + 1], 0>>, y[i + 1]>>>>
      A == FoldLeft(LAMBDA s, i : s \o at(i - 1), <<>>, [i \in 1..n |-> i]) \o <<<<<<n, n, 0, q>>, 0>>, <<<<n, n + 1, -1, 0>>, -1>>>>
  IN [n |-> n + 2, a |-> [k \in 1..Len(A) |-> A[k][1]], aux |-> [k \in 1..Len(A) |-> A[k][2]]]
(* the cheapest alignment, by the classical recurrence                        *)
Row0(h, ci) == [j \in 0..Len(h) |-> j * ci]
NextRow(R, s, h, ci, cd) ==
  FoldLeft(LAMBDA N, j : (j :> Min2(Min2(N[j - 1] + ci, R[j] + cd), R[j - 1] + (IF s = h[j] THEN 0 ELSE 2 * Half))) @@ N,
           0 :> (R[0] + cd), [j \in 1..Len(h) |-> j])
Wd(r, h, ci, cd) == FoldLeft(LAMBDA R, i : NextRow(R, r[i], h, ci, cd), Row0(h, ci), [i \in 1..Len(r) |-> i])[Len(h)]
Dist(r, h) == Wd(r, h, 1000, 1000) \div 1000
(* declaratively: sequences of <<reference symbol, hypothesis symbol>>, 0 = none *)
NonZero(s) == SelectSeq(s, LAMBDA v : v # 0)
IsScript(z, r, h) == /\ \A k \in DOMAIN z : z[k] # <<0, 0>>
                     /\ NonZero([k \in DOMAIN z |-> z[k][1]]) = r /\ NonZero([k \in DOMAIN z |-> z[k][2]]) = h
PairCost(p, ci, cd) == IF p[1] = p[2] THEN 0 ELSE IF p[1] = 0 THEN ci ELSE IF p[2] = 0 THEN cd ELSE 2 * Half
ScriptCost(z, ci, cd) == SumSeq([k \in DOMAIN z |-> PairCost(z[k], ci, cd)])
Edits(z) == Cardinality({k \in DOMAIN z : z[k][1] # z[k][2]})
(* best score of each output for the input z (label 0 is an ordinary symbol)   *)
BestReads(F, aux, z) ==
  LET put(B, k, v) == IF k \in DOMAIN B THEN [B EXCEPT ![k] = Max2(@, v)] ELSE (k :> v) @@ B
      step(B, lab) == FoldSet(LAMBDA p, Z :
        FoldSet(LAMBDA k, Y : IF Src(F, k) = p[1] /\ Lab(F, k) = lab
                              THEN put(Y, <<Dst(F, k), IF aux[k] \in {0, -1} THEN p[2] ELSE Append(p[2], aux[k])>>, B[p] + Wt(F, k)) ELSE Y,
                Z, 1..Len(F.a)), [p \in {} |-> 0], DOMAIN B)
      R == FoldLeft(step, <<0, <<>>>> :> 0, z \o <<-1>>) IN
  FoldSet(LAMBDA p, Z : IF p[1] = F.n - 1 THEN put(Z, p[2], R[p]) ELSE Z, [p \in {} |-> 0], DOMAIN R)
(* minimum risk: paths with integer probabilities P and word errors W          *)
Tot(P) == SumSeq(P)
Avg(P, W) == SumSeq([i \in DOMAIN P |-> P[i] * W[i]])         \* over Tot(P)
=============================================================================
