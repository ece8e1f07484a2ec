-------------------------------- MODULE MC22 ---------------------------------
(* All small automata with extra labels: what is written is read back, in either convention and with the lines in any allowed order;  *)
(* damaged texts are refused or mean something else, they are never read as the same automaton.                                       *)
EXTENDS K2Text
CONSTANTS MaxStates, MaxArcs, NA, NR
VARIABLES n, arcs
vars == <<n, arcs>>
Scores == {0, 3, -8}
Auxs == {-1, 4}
Rags == {<<>>, <<2, -1>>}
Init == n \in 2..MaxStates /\ arcs = <<>>
Add == /\ Len(arcs) < MaxArcs
       /\ \E src \in 0..(n - 2), dst \in 0..(n - 1), w \in Scores, lab \in {0, 7}, x \in Auxs, y \in Rags :
            /\ (IF arcs = <<>> THEN TRUE ELSE arcs[Len(arcs)].a[1] <= src) /\ (dst = n - 1 => lab = 0)
            /\ arcs' = Append(arcs, [a |-> <<src, dst, IF dst = n - 1 THEN -1 ELSE lab, w>>, aux |-> [i \in 1..NA |-> IF i = 1 THEN x ELSE 5], rag |-> [i \in 1..NR |-> y]])
       /\ UNCHANGED n
Next == Add
Spec == Init /\ [][Next]_vars
X == LET F == [n |-> n, a |-> [k \in 1..Len(arcs) |-> arcs[k].a], c |-> [s \in 1..n |-> Cardinality({k \in 1..Len(arcs) : arcs[k].a[1] = s - 1})]]
     IN [F |-> F] @@ Columns(arcs, NA, NR)
Some == arcs # <<>>
NativeRound == Some => LET r == ReadK2(WriteK2(X), NA, NR) IN r.ok /\ r.F = X.F /\ r.aux = X.aux /\ r.rag = X.rag
\* final arcs carry -1 and empty lists in OpenFst form and come last in their state
Plain(x) == [x EXCEPT !.aux = IF x.a[3] = -1 THEN [i \in 1..NA |-> -1] ELSE @, !.rag = IF x.a[3] = -1 THEN [i \in 1..NR |-> <<>>] ELSE @]
Mentioned == {arcs[k].a[1] : k \in 1..Len(arcs)} \cup {arcs[k].a[2] : k \in {j \in 1..Len(arcs) : arcs[j].a[3] # -1}}
Whole == Some /\ Mentioned = 0..(n - 2)
Rows(r) == [k \in 1..NArcs(r.F) |-> [a |-> r.F.a[k], aux |-> [i \in 1..NA |-> r.aux[i][k]], rag |-> [i \in 1..NR |-> r.rag[i][k]]]]
BagOf(s) == [x \in {s[i] : i \in 1..Len(s)} |-> Cardinality({i \in 1..Len(s) : s[i] = x})]
FstRound == Whole /\ arcs[1].a[1] = 0 =>
  LET r == ReadFst(WriteFst(X), NA, NR) IN r.ok /\ r.F.n = n /\ BagOf(Rows(r)) = BagOf([k \in 1..Len(arcs) |-> Plain(arcs[k])])
\* the lines in another order, the first one staying first
Reordered(L) == {<<L[1]>> \o [k \in 1..(Len(L) - 1) |-> L[Len(L) + 1 - k]]}
FstAnyOrder == Whole /\ arcs[1].a[1] = 0 => \A L \in Reordered(WriteFst(X)) :
  LET r == ReadFst(L, NA, NR) IN r.ok /\ r.F.n = n /\ BagOf(Rows(r)) = BagOf([k \in 1..Len(arcs) |-> Plain(arcs[k])])
\* a token or the last line lost
Cut(L, k, p) == [L EXCEPT ![k] = SubSeq(@, 1, p - 1) \o SubSeq(@, p + 1, Len(@))]
Damaged == Some => LET L == WriteK2(X) IN
  /\ ~ReadK2(SubSeq(L, 1, Len(L) - 1), NA, NR).ok
  /\ \A k \in 1..(Len(L) - 1) : \A p \in 1..Len(L[k]) : LET r == ReadK2(Cut(L, k, p), NA, NR) IN
       r.ok => (p = Len(L[k]) /\ r.F = [X.F EXCEPT !.a[k][4] = 0]) \/ r.F # X.F \/ r.aux # X.aux \/ r.rag # X.rag
TensorRound == (\E k \in 1..Len(arcs) : arcs[k].a[3] = -1) => FromArcs(X.F.a) = [ok |-> TRUE, F |-> X.F]
=============================================================================
