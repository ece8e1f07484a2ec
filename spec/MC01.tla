-------------------------------- MODULE MC01 --------------------------------
(* Design model for C01: intersection by exploration of state pairs, one     *)
(* queued pair per step as in the library's host implementation, over ALL    *)
(* pairs of three-state automata with at most KA and KB arcs over labels     *)
(* {0,1} and distinct weights.  At the end the constructed automaton must    *)
(* denote the product language, and the relation that the trace              *)
(* specification checks (ProductClauses) must accept it.                     *)
EXTENDS K2Product
CONSTANTS KA, KB, SPECIALS, L

AllArcs == << <<0,0,0,-1>>, <<0,0,1,-2>>, <<0,1,0,-5>>, <<0,1,1,3>>, <<0,2,-1,1>>,
              <<1,0,0,-7>>, <<1,0,1,-4>>, <<1,1,1,-3>>, <<1,2,-1,2>> >>
Mk(S) == [n |-> 3,
          a |-> [k \in 1..Cardinality(S) |-> AllArcs[SetToSortSeq(S, <)[k]]],
          c |-> <<Cardinality({i \in S : AllArcs[i][1] = 0}), Cardinality({i \in S : AllArcs[i][1] = 1}), 0>>]
Automata(K) == {Mk(S) : S \in {T \in SUBSET (1..Len(AllArcs)) : Cardinality(T) <= K /\ (5 \in T \/ 9 \in T)}}

VARIABLES A, B, special, queue, ids, arcs, m1, m2, done
vars == <<A, B, special, queue, ids, arcs, m1, m2, done>>
F == <<2, 2>>

Init == /\ A \in Automata(KA) /\ B \in Automata(KB) /\ special \in SPECIALS
        /\ queue = << <<0, 0>> >> /\ ids = << <<0, 0>> >> /\ arcs = <<>> /\ m1 = <<>> /\ m2 = <<>> /\ done = FALSE

IndexIn(s, x) == IF \E i \in 1..Len(s) : s[i] = x THEN CHOOSE i \in 1..Len(s) : s[i] = x ELSE 0

\* all moves of one pair are appended; unseen pairs are queued
Visit ==
  /\ ~done /\ queue # <<>>
  /\ LET s == Head(queue)
         ms == SetToSeq(Moves(A, Offs(A), B, Offs(B), s[1], s[2], special))
         dests == [i \in 1..Len(ms) |-> MoveTo(A, B, s[1], s[2], ms[i])]
         ext == FoldLeft(LAMBDA x, d : IF d = F \/ IndexIn(x, d) # 0 THEN x ELSE Append(x, d), ids, dests)
     IN /\ ids' = ext
        /\ queue' = Tail(queue) \o SubSeq(ext, Len(ids) + 1, Len(ext))
        /\ arcs' = arcs \o [i \in 1..Len(ms) |-> <<s, dests[i], MoveLab(A, B, ms[i]), MoveW(A, B, ms[i])>>]
        /\ m1' = m1 \o [i \in 1..Len(ms) |-> ms[i][1]]
        /\ m2' = m2 \o [i \in 1..Len(ms) |-> ms[i][2]]
  /\ UNCHANGED <<A, B, special, done>>
Finish == ~done /\ queue = <<>> /\ done' = TRUE /\ UNCHANGED <<A, B, special, queue, ids, arcs, m1, m2>>
Next == Visit \/ Finish

Built == LET num(p) == IF p = F THEN Len(ids) ELSE IndexIn(ids, p) - 1 IN
  [n |-> Len(ids) + 1,
   a |-> [k \in 1..Len(arcs) |-> <<num(arcs[k][1]), num(arcs[k][2]), arcs[k][3], arcs[k][4]>>],
   c |-> [s \in 1..(Len(ids) + 1) |-> Cardinality({k \in 1..Len(arcs) : num(arcs[k][1]) = s - 1})]]

TypeOK == done => ValidFsa(Built)
DenotesProduct == done => LangEqProduct(A, B, Built, L, special)
AcceptedByTraceSpec == done => ProductClauses(A, B, Built, m1, m2, special) = {}
\* the relation is tight: a product with its last arc missing is not accepted if that arc was useful
RejectsMissingArc ==
  done /\ Len(arcs) > 0 /\ Built.a[Len(arcs)][2] \in CoAccessible(Built) =>
     LET k == Len(arcs)
         C == [Built EXCEPT !.a = SubSeq(@, 1, k - 1), !.c[Built.a[k][1] + 1] = @ - 1]
     IN ProductClauses(A, B, C, SubSeq(m1, 1, k - 1), SubSeq(m2, 1, k - 1), special) # {}
=============================================================================
