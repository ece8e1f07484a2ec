-------------------------------- MODULE MC14 --------------------------------
(* Chunk-by-chunk decoding as the library does it: the forward search goes on *)
(* from the saved frame, and after every chunk the frames from two before it   *)
(* are pruned.  Whatever the split, the search is that of the whole utterance, *)
(* nothing within the output beam is lost, and nothing outside it is kept once  *)
(* its chunk is over.                                                         *)
EXTENDS K2Online
CONSTANTS MaxT, C, W, Back
VARIABLES F, x, last, kept
Mk(n, a) == [n |-> n, a |-> a, c |-> [s \in 1..n |-> Cardinality({k \in 1..Len(a) : a[k][1] = s - 1})]]
Graphs == {Mk(3, <<<<0, 0, 0, 0>>, <<0, 1, 1, 0>>, <<1, 1, 1, 0>>, <<1, 0, 0, 0>>, <<1, 2, -1, 0>>>>),
           Mk(4, <<<<0, 1, 0, 0>>, <<0, 2, 1, 1>>, <<1, 2, 1, 0>>, <<1, 3, -1, 0>>, <<2, 1, 0, 0>>, <<2, 2, 1, 0>>>>),
           Mk(4, <<<<0, 1, 0, 0>>, <<0, 2, 1, 0>>, <<1, 3, -1, 0>>, <<2, 2, 0, 0>>>>)}
P == [D |-> 2 * U + U \div 2, mina |-> 1, maxa |-> 2, online |-> 1, part |-> 0]
OB == 3
Init == F \in Graphs /\ x = NewStream /\ last = <<[V |-> StartVec(F), d |-> P.D, amb |-> FALSE, ps |-> FALSE]>> /\ kept = {}
Rows1 == {<<NegInf>> \o r : r \in [1..C -> W]}
Chunk(rows) ==
  LET S == FoldLeft(LAMBDA Z, row : Append(Z, SearchStep(P, F, row, Z[Len(Z)], 100)), last, rows)
      y == AddChunk(x, rows)
      e == Len(y.rows)
      from == Max2(0, Len(x.rows) - 2)
      A == {z \in Alive(F, y.rows, S) : z[1] < Len(x.rows) => z \in kept} IN
  /\ x' = y /\ last' = S
  /\ kept' = {z \in A : z[1] < from} \cup {z \in Good(F, y.rows, S, A, e, OB) : z[1] >= from}
  /\ UNCHANGED F
Chunk1 == Len(x.rows) < MaxT /\ \E r \in Rows1 : Chunk(<<r>>)
Chunk2 == Len(x.rows) + 1 < MaxT /\ \E r, q \in Rows1 : Chunk(<<r, q>>)
Chunk3 == Len(x.rows) + 2 < MaxT /\ \E r, q \in Rows1 : Chunk(<<r, q, r>>)
Next == Chunk1 \/ Chunk2 \/ Chunk3
Correct ==
  LET S == SearchOn(P, F, x.rows) IN
  /\ last = S
  /\ x.ends # <<>> => MustArcs(F, x, S, OB) \subseteq kept /\ kept \subseteq MayArcs(F, x, S, OB)
  \* with nothing to prune, the partial lattice is the exact lattice of the frames so far
  /\ LET w == SearchOn([P EXCEPT !.D = 1000 * U, !.maxa = 1000, !.mina = 0], F, x.rows)
         b == Append(x.rows, FinalRow(C))  f == FwdD(F, b)  bw == BwdD(F, b)
         E == EndArcs(P, F, C, w)
     IN {k \in 1..NArcs(F) : \E z \in ArcDef(F, b, f, bw, f[Len(b) + 1][Final(F)]) : z[1] = Len(x.rows) /\ z[2] = k} = E
=============================================================================
