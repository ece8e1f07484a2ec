-------------------------------- MODULE MC16 --------------------------------
(* All short label sequences against all short frame sequences: the alignment *)
(* automaton counts the alignments of the declarative definition, the          *)
(* standard model is the collapse function, and the library's topologies (one  *)
(* state per symbol) give the same counts.                                    *)
EXTENDS K2Ctc
CONSTANTS V, MaxT, MaxY
VARIABLES x, y
Init == x = <<>> /\ y = <<>>
AddFrame == Len(x) < MaxT /\ \E s \in 0..V : x' = Append(x, s) /\ y' = y
AddLabel == x = <<>> /\ Len(y) < MaxY /\ \E s \in 1..V : y' = Append(y, s) /\ x' = x
Next == AddFrame \/ AddLabel
Delta(v) == [t \in 1..Len(v) |-> [c \in 1..(V + 1) |-> IF c = v[t] + 1 THEN 1 ELSE 0]]
NoPen(v) == [t \in 1..Len(v) |-> 0]
\* the topologies as transition systems: <<from, frame symbol, output, to>>
Standard == {<<i, j, IF i = j THEN 0 ELSE j, j>> : i, j \in 0..V}
Modified == {<<0, i, i, 0>> : i \in 0..V} \cup {<<0, i, i, i>> : i \in 1..V} \cup {<<i, i, 0, i>> : i \in 1..V} \cup {<<i, i, 0, 0>> : i \in 1..V}
\* number of runs over x that output y; runs may end in E
Runs(T, E) ==
  LET step(W, t) == FoldSet(LAMBDA a, U :
        FoldSet(LAMBDA q, Z : IF q[1] = a[1] /\ (a[3] = 0 \/ (q[2] < Len(y) /\ y[q[2] + 1] = a[3]))
                              THEN [Z EXCEPT ![<<a[4], IF a[3] = 0 THEN q[2] ELSE q[2] + 1>>] = @ + W[q]] ELSE Z, U, DOMAIN W),
        [q \in DOMAIN W |-> 0], {a \in T : a[2] = x[t]})
      R == FoldLeft(LAMBDA W, t : step(W, t), [q \in (0..V) \X (0..Len(y)) |-> IF q = <<0, 0>> THEN 1 ELSE 0], [t \in 1..Len(x) |-> t])
  IN FoldSet(LAMBDA q, m : m + R[<<q, Len(y)>>], 0, E)
Correct ==
  /\ \A mod \in BOOLEAN : Total(y, mod, Delta(x), NoPen(x)) = Cardinality(Alignments(x, y, mod))
  /\ Cardinality(Alignments(x, y, FALSE)) = IF Collapse(x) = y THEN 1 ELSE 0
  /\ Runs(Standard, 0..V) = Cardinality(Alignments(x, y, FALSE))
  /\ Runs(Modified, {0}) = Cardinality(Alignments(x, y, TRUE))
  /\ BeamTotal(y, FALSE, Delta(x), NoPen(x), 5) = Total(y, FALSE, Delta(x), NoPen(x))
=============================================================================
