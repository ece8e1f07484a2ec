-------------------------------- MODULE MC27 ---------------------------------
(* Trimming a whole batch at once: the states of all elements in one numbering, *)
(* one thread marking what the start states reach, another what reaches the     *)
(* final states, in any interleaving; kept states and arcs are then renumbered  *)
(* with one running count and cut back into elements.  Element by element that  *)
(* is what trimming the element alone gives.  (Shared = TRUE: both threads mark  *)
(* the same array, as a slip would have it - the invariant then fails.)          *)
EXTENDS K2Wfsa
CONSTANTS States_, Shared, Elements
\* elements: automata with up to States_ states (arcs over one label), empty ones included
Cands(n) == {<<s, d>> \in (0..(n - 2)) \X (0..(n - 1)) : s # d}
Auto(n, A) == LET ss == SetToSortSeq(A, LAMBDA a, b : a # b /\ (a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2]))) IN
  [n |-> n, a |-> [k \in 1..Len(ss) |-> <<ss[k][1], ss[k][2], IF ss[k][2] = n - 1 THEN -1 ELSE 1, k>>], c |-> [s \in 1..n |-> Cardinality({x \in A : x[1] = s - 1})]]
Autos == {[n |-> 0, a |-> <<>>, c |-> <<>>]} \cup UNION {{Auto(n, A) : A \in SUBSET Cands(n)} : n \in 2..States_}
VARIABLES B, acc, coacc, fnext, bnext, out, pc
vars == <<B, acc, coacc, fnext, bnext, out, pc>>
Base(i) == SumSeq([j \in 1..(i - 1) |-> B[j].n])
All == 0..(Base(Len(B) + 1) - 1)
Arcs == UNION {{<<Base(i) + B[i].a[k][1], Base(i) + B[i].a[k][2]>> : k \in 1..Len(B[i].a)} : i \in 1..Len(B)}
Init ==
  /\ B \in [1..Elements -> Autos]
  /\ acc = {} /\ coacc = {} /\ out = <<>> /\ pc = "mark"
  /\ fnext = {Base(i) : i \in {j \in 1..Len(B) : B[j].n > 0}}
  /\ bnext = {Base(i) + B[i].n - 1 : i \in {j \in 1..Len(B) : B[j].n > 0}}
Forward ==
  /\ pc = "mark" /\ fnext # {}
  /\ acc' = acc \cup fnext
  /\ coacc' = IF Shared THEN coacc \cup fnext ELSE coacc
  /\ fnext' = {e[2] : e \in {x \in Arcs : x[1] \in fnext}} \ acc'
  /\ UNCHANGED <<B, bnext, out, pc>>
Backward ==
  /\ pc = "mark" /\ bnext # {}
  /\ coacc' = coacc \cup bnext
  /\ bnext' = {e[1] : e \in {x \in Arcs : x[2] \in bnext}} \ coacc'
  /\ UNCHANGED <<B, acc, fnext, out, pc>>
Keep == acc \cap coacc
New(s) == Cardinality({u \in Keep : u < s})
Renumber ==
  /\ pc = "mark" /\ fnext = {} /\ bnext = {}
  /\ out' = [i \in 1..Len(B) |->
               LET first == New(Base(i)) IN
               [n |-> New(Base(i) + B[i].n) - first,
                a |-> LET kept == SelectSeq([k \in 1..Len(B[i].a) |-> k], LAMBDA k : (Base(i) + B[i].a[k][1]) \in Keep /\ (Base(i) + B[i].a[k][2]) \in Keep)
                      IN [j \in 1..Len(kept) |-> LET x == B[i].a[kept[j]] IN <<New(Base(i) + x[1]) - first, New(Base(i) + x[2]) - first, x[3], x[4]>>]]]
  /\ pc' = "done"
  /\ UNCHANGED <<B, acc, coacc, fnext, bnext>>
Next == Forward \/ Backward \/ Renumber
Spec == Init /\ [][Next]_vars
AloneOf(F) ==
  LET U == Useful(F)
      num(s) == Cardinality({u \in U : u < s})
      kept == SelectSeq(F.a, LAMBDA x : x[1] \in U /\ x[2] \in U)
  IN [n |-> Cardinality(U), a |-> [j \in 1..Len(kept) |-> <<num(kept[j][1]), num(kept[j][2]), kept[j][3], kept[j][4]>>]]
ElementWise == pc = "done" => \A i \in 1..Len(B) : out[i] = AloneOf(B[i])
=============================================================================
