------------------------------- MODULE K2Store -------------------------------
(* The automata objects of the C++ decoding library as a store: a name is    *)
(* bound to a value (batch of automata with attributes).  Copying a handle   *)
(* shares the arcs; an operation rebinds its own name only; only the         *)
(* documented setters (labels, scores) write through shared arcs.            *)
EXTENDS K2Attr
Names(A) == {A[i].name : i \in 1..Len(A)}
ValOf(all, n) == LET i == CHOOSE j \in 1..Len(all) : all[j].name = n IN all[i].v
Bound(all) == {all[i].name : i \in 1..Len(all)}
AsStore(all) == [n \in Bound(all) |-> ValOf(all, n)]
\* attribute list with one attribute replaced or added
Put(A, x) == {A[i] : i \in {j \in 1..Len(A) : A[j].name # x.name}} \cup {x}
SetOf(A) == {A[i] : i \in 1..Len(A)}
ScaleSeq(k, v) == [i \in 1..Len(v) |-> k * v[i]]
ScaleScores(k, F) == [F EXCEPT !.a = [i \in 1..Len(F.a) |-> <<F.a[i][1], F.a[i][2], F.a[i][3], k * F.a[i][4]>>]]
\* the words of a linear automaton as a linear automaton with epsilon self-loops
WordsOf(F) == SelectSeq([k \in 1..Len(F.a) |-> F.a[k][3]], LAMBDA x : x > 0)
LoopArcs(w) == {<<i, i, 0, 0>> : i \in 0..Len(w)} \cup
               {<<i - 1, i, IF i = Len(w) + 1 THEN -1 ELSE w[i], 0>> : i \in 1..(Len(w) + 1)}
IsLoopLinear(F, w) == F.n = Len(w) + 2 /\ Len(F.a) = 2 * Len(w) + 2 /\ {F.a[k] : k \in 1..Len(F.a)} = LoopArcs(w)
=============================================================================
