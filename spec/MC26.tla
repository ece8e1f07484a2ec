-------------------------------- MODULE MC26 ---------------------------------
(* Intersecting one entry of an n-best list (a linear automaton with epsilon   *)
(* self-loops) with an acyclic lattice: pairs of states are numbered as they   *)
(* are first met, in whatever order the arcs come; the score of the best path  *)
(* is then found arc by arc.  That is right if the states are sorted first     *)
(* (Sort), not in the order they were numbered.                                *)
EXTENDS K2Nbest
CONSTANTS Middle, Sort, MaxSeq
\* states 0..Middle+1, Middle+1 final
Fin == Middle + 1
Arcs == {<<s, d, y>> \in (0..Middle) \X (0..Fin) \X {-1, 0, 1} : s < d /\ ((d = Fin) <=> (y = -1))}
Weight(a, z) == (((3 * a[1]) + (z * a[2]) + (7 * a[3])) % 5) - 2
VARIABLES F, seq, pairs, done, graph, best, pc
vars == <<F, seq, pairs, done, graph, best, pc>>
Lattice(A, z) == LET ss == SetToSortSeq(A, LAMBDA a, b : a # b /\ (a[1] < b[1] \/ (a[1] = b[1] /\ (a[2] < b[2] \/ (a[2] = b[2] /\ a[3] < b[3])))))
              IN [n |-> Fin + 1, a |-> [k \in 1..Len(ss) |-> <<ss[k][1], ss[k][2], ss[k][3], Weight(ss[k], z)>>],
                  c |-> [s \in 1..(Fin + 1) |-> Cardinality({a \in A : a[1] = s - 1})]]
Init ==
  /\ \E A \in SUBSET Arcs, z \in 1..3 : F = Lattice(A, z)
  /\ \E n \in 0..MaxSeq : seq = [k \in 1..n |-> 1]
  /\ pairs = << <<0, 0>> >> /\ done = 0 /\ graph = {} /\ best = 0 /\ pc = "expand"
\* what the entry can do with a label at place q
After(q, y) == IF y = 0 THEN {q} ELSE IF y = -1 THEN (IF q = Len(seq) THEN {q + 1} ELSE {}) ELSE IF q < Len(seq) /\ seq[q + 1] = y THEN {q + 1} ELSE {}
Moves(p) == UNION {{<<p, <<Dst(F, k), q>>, Wt(F, k)>> : q \in After(p[2], Lab(F, k))} : k \in {j \in 1..NArcs(F) : Src(F, j) = p[1]}}
Expand ==
  /\ pc = "expand" /\ done < Len(pairs)
  /\ LET p == pairs[done + 1]  M == IF p[1] = Fin THEN {} ELSE Moves(p)  new == {m[2] : m \in M} \ {pairs[k] : k \in 1..Len(pairs)} IN
     /\ \E o \in SetToAllKPermutations(new) : Len(o) = Cardinality(new) /\ pairs' = pairs \o o
     /\ graph' = graph \cup M
  /\ done' = done + 1
  /\ UNCHANGED <<F, seq, best, pc>>
\* one pass over the states in the given order
Pass(order) ==
  LET V0 == [k \in {pairs[j] : j \in 1..Len(pairs)} |-> IF k = <<0, 0>> THEN 0 ELSE NegInf]
      V == FoldLeft(LAMBDA v, p : [q \in DOMAIN v |-> Greatest({v[q]} \cup {Plus(v[p], m[3]) : m \in {x \in graph : x[1] = p /\ x[2] = q}})], V0, order)
  IN Greatest({V[q] : q \in {x \in DOMAIN V : x = <<Fin, Len(seq) + 1>>}})
\* sorted: lattice states only grow along arcs
Sorted == SetToSortSeq({pairs[j] : j \in 1..Len(pairs)}, LAMBDA a, b : a # b /\ (a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])))
Score ==
  /\ pc = "expand" /\ done = Len(pairs)
  /\ best' = Pass(IF Sort THEN Sorted ELSE pairs)
  /\ pc' = "scored"
  /\ UNCHANGED <<F, seq, pairs, done, graph>>
Done == pc = "scored" /\ pc' = "end" /\ UNCHANGED <<F, seq, pairs, done, graph, best>>
Next == Expand \/ Score \/ Done
Spec == Init /\ [][Next]_vars
Right == pc = "scored" => best = BestFor(F, seq)
=============================================================================
