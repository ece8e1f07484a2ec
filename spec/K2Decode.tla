------------------------------ MODULE K2Decode ------------------------------
(* Offline decoding on lattices L = [f, x]: what the paths of a lattice say   *)
(* (x: output symbols of each arc), which is best, how much a sequence of     *)
(* outputs weighs, and what a language model adds.                            *)
EXTENDS K2Nbest
Linear1(O) == LinearForm(O) /\ \A k \in 1..Len(O.a) : (O.a[k][3] = -1) = (k = Len(O.a))
ChainLabs(O) == [k \in 1..Len(O.a) |-> O.a[k][3]]
ChainW(O) == IF \E k \in 1..Len(O.a) : O.a[k][4] = NegInf THEN NegInf ELSE SumSeq([k \in 1..Len(O.a) |-> O.a[k][4]])
BestPaths(F) == LET P == Paths(F)  m == Greatest({PW(F, p) : p \in P}) IN IF m = NegInf THEN {} ELSE {p \in P : PW(F, p) = m}
\* tropical and (weights taken as probabilities) log weight of an output sequence
BestOut(L, w) == Greatest({PW(L.f, p) : p \in {q \in Paths(L.f) : OutOfPath(L, q) = w}})
RECURSIVE ProdW(_, _)
ProdW(F, p) == IF p = <<>> THEN 1 ELSE Wt(F, p[1]) * ProdW(F, Tail(p))
SumOut(L, w) == FoldSet(LAMBDA p, s : s + ProdW(L.f, p), 0, {q \in Paths(L.f) : OutOfPath(L, q) = w})
\* the weights of all ways in which G (no epsilons) accepts w: states reached with the weight so far
GStep(G, S, y) == {<<Dst(G, k), s[2] + Wt(G, k)>> : <<s, k>> \in {z \in S \X (1..NArcs(G)) : Src(G, z[2]) = z[1][1] /\ Lab(G, z[2]) = y}}
GWeights(G, w) ==
  LET R == FoldLeft(LAMBDA S, y : GStep(G, S, y), {<<0, 0>>}, w \o <<-1>>) IN {s[2] : s \in {r \in R : r[1] = Final(G)}}
=============================================================================
