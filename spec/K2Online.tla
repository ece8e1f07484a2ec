------------------------------ MODULE K2Online -------------------------------
(* Decoding by chunks.  A stream is [rows, ends]: the score rows it has seen  *)
(* (without the final one) and how many there were after each chunk.         *)
EXTENDS K2Prune
NewStream == [rows |-> <<>>, ends |-> <<>>]
AddChunk(x, rows) == [rows |-> x.rows \o rows, ends |-> Append(x.ends, Len(x.rows) + Len(rows))]
SearchOn(P, G, rows) ==
  FoldLeft(LAMBDA S, row : Append(S, SearchStep(P, G, row, S[Len(S)], 100)),
           <<[V |-> StartVec(G), d |-> P.D, amb |-> FALSE, ps |-> FALSE]>>, rows)
\* the arcs into the final state that a partial lattice ends with, from the states active now
EndArcs(P, G, C, S) ==
  LET V == S[Len(S)].V  part == Partial(P, G, V) IN
  {k \in 1..NArcs(G) : V[Src(G, k)] # NegInf /\ ArcVal(part, FinalRow(C), G.a[k]) # NegInf}
\* end of the chunk in which frame t was decoded
ChunkEnd(x, t) == x.ends[CHOOSE i \in 1..Len(x.ends) : x.ends[i] > t /\ (i = 1 \/ x.ends[i - 1] <= t)]
MustArcs(G, x, S, ob2) == Good(G, x.rows, S, Alive(G, x.rows, S), Len(x.rows), ob2)
MayArcs(G, x, S, ob2) ==
  LET A == Alive(G, x.rows, S) IN
  UNION {{y \in Good(G, x.rows, S, A, e, ob2) : ChunkEnd(x, y[1]) = e} : e \in {x.ends[i] : i \in 1..Len(x.ends)}}
=============================================================================
