-------------------------------- MODULE MC06 --------------------------------
(* Design model for C06: an automaton is abstracted to the attribute columns *)
(* of its arcs; derivations apply arbitrary arc maps.  In every reachable    *)
(* state each column equals the source column seen through the composed map, *)
(* whatever the order of dense and ragged derivations -- the rule that lets  *)
(* operations be chained.                                                    *)
EXTENDS K2Derive
CONSTANTS N, Steps, Vals
Filler == 7
VARIABLES src, fcol, col, kind, comp, steps
vars == <<src, fcol, col, kind, comp, steps>>
\* comp[k]: sequence of source arcs (a single arc while only dense maps were used; empty: none)
Init == /\ src \in [1..N -> Vals] /\ fcol \in [1..N -> {1, 2}]
        /\ col = [i \in 1..N |-> src[i]] /\ kind = "int" /\ comp = [i \in 1..N |-> <<i>>] /\ steps = 0
Maps(n) == UNION {[1..j -> 0..n] : j \in 1..N}
DeriveT == \E m \in Maps(Len(col)) :
  /\ col' = [k \in 1..Len(m) |-> IF m[k] = 0 THEN (IF kind = "int" THEN Filler ELSE <<>>) ELSE col[m[k]]]
  /\ comp' = [k \in 1..Len(m) |-> IF m[k] = 0 THEN <<>> ELSE comp[m[k]]]
  /\ UNCHANGED kind
Seqs(n) == {<<>>} \cup {<<i>> : i \in 1..n} \cup {<<i, j>> : i, j \in 1..n}
DeriveR == \E m \in UNION {[1..j -> Seqs(Len(col))] : j \in 1..2} :
  LET A == [k \in 1..Len(col) |-> <<0, 1, 1, 0>>]
      s == [name |-> "x", kind |-> kind, filler |-> Filler, v |-> col] IN
  /\ col' = [k \in 1..Len(m) |-> Expect(s, m[k], A, TRUE, FALSE)]
  /\ comp' = [k \in 1..Len(m) |-> ConcatSeq([i \in 1..Len(m[k]) |-> comp[m[k][i]]])]
  /\ kind' = "rag"
Derive == steps < Steps /\ steps' = steps + 1 /\ UNCHANGED <<src, fcol>> /\ (DeriveT \/ DeriveR)
Next == Derive
Total == Len(col) = Len(comp)
Follows == \A k \in 1..Len(col) :
  IF kind = "int" THEN col[k] = (IF comp[k] = <<>> THEN Filler ELSE src[comp[k][1]])
  ELSE col[k] = SelectSeq([i \in 1..Len(comp[k]) |-> src[comp[k][i]]], LAMBDA x : x # Filler)
=============================================================================
