-------------------------------- MODULE MC30 --------------------------------
(* Rescoring a lattice with a language model and choosing among sampled       *)
(* outputs, as chains of operations: invert, intersect with an automaton      *)
(* whose states have epsilon self-loops, take the scores apart and together   *)
(* again.  That the chains compute what K2Decode defines needs the loops      *)
(* (Loops) and the old language-model scores to be taken off (Off).           *)
EXTENDS K2Decode
CONSTANTS MaxArcs, Loops, Off, Outs
VARIABLES L, G, pc, res
vars == <<L, G, pc, res>>
N == 3
\* arcs <<src, dst, label, weight>> with output and old lm score
ArcChoices == {<<s, d, y>> \in (0..(N - 2)) \X (1..(N - 1)) \X (0..Outs) : s < d}
Mk(seq) == [f |-> [n |-> N, a |-> [k \in 1..Len(seq) |-> <<seq[k][1], seq[k][2], IF seq[k][2] = N - 1 THEN -1 ELSE 1, 1 + ((seq[k][1] + 2 * seq[k][3] + k) % 3)>>],
                    c |-> [s \in 1..N |-> Cardinality({k \in 1..Len(seq) : seq[k][1] = s - 1})]],
            x |-> [k \in 1..Len(seq) |-> IF seq[k][2] = N - 1 THEN <<-1>> ELSE <<seq[k][3]>>],
            lm |-> [k \in 1..Len(seq) |-> (k + seq[k][2]) % 2]]
Lt(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ (a[2] < b[2] \/ (a[2] = b[2] /\ a[3] <= b[3])))
SortedSeqs == UNION {{q \in [1..m -> ArcChoices] : \A k \in 1..(m - 1) : Lt(q[k], q[k + 1])} : m \in 0..MaxArcs}
GArcs == {<<0, 0, y, w>> : y \in 1..Outs, w \in {1}} \cup {<<0, 1, y, 2>> : y \in 1..Outs} \cup {<<1, 0, 1, 0>>, <<0, 2, -1, 1>>, <<1, 2, -1, 3>>}
MkG(A) == LET ss == SetToSortSeq(A, LAMBDA a, b : a # b /\ (a[1] < b[1] \/ (a[1] = b[1] /\ (a[2] < b[2] \/ (a[2] = b[2] /\ a[3] < b[3]))))) IN
          [n |-> 3, a |-> ss, c |-> [s \in 1..3 |-> Cardinality({a \in A : a[1] = s - 1})]]
Init == /\ \E q \in SortedSeqs : L = Mk(q)
        /\ \E A \in SUBSET GArcs : Cardinality(A) >= 1 /\ Cardinality(A) <= 4 /\ G = MkG(A)
        /\ pc = "start" /\ res = {}
\* output of arc k as one symbol (the final arc reads -1)
Y(k) == L.x[k][1]
\* paths of the intersection of the inverted lattice with an automaton H with self-loops: pairs of arc sequences
RECURSIVE Walk(_, _, _, _)
Walk(H, s, t, acc) ==
  IF s = N - 1 THEN (IF t = H.n - 1 THEN {acc} ELSE {}) ELSE
  UNION {LET k == z[1]  j == z[2] IN
         IF j = 0 THEN Walk(H, Dst(L.f, k), t, Append(acc, <<k, 0>>)) ELSE Walk(H, Dst(L.f, k), Dst(H, j), Append(acc, <<k, j>>))
         : z \in {z \in {k \in 1..NArcs(L.f) : Src(L.f, k) = s} \X (0..NArcs(H)) :
                  IF z[2] = 0 THEN Loops /\ Y(z[1]) = 0 ELSE Src(H, z[2]) = t /\ Lab(H, z[2]) = Y(z[1])}}
LArc(acc) == [q \in 1..Len(acc) |-> acc[q][1]]
Rescored ==
  /\ pc = "start" /\ pc' = "rescored"
  /\ res' = {LET p == LArc(acc)
                 am == SumSeq([q \in 1..Len(p) |-> Wt(L.f, p[q]) - (IF Off THEN L.lm[p[q]] ELSE 0)])
                 g == SumSeq([q \in 1..Len(acc) |-> IF acc[q][2] = 0 THEN 0 ELSE Wt(G, acc[q][2])]) IN
             <<InOfPath(L, p), OutOfPath(L, p), 2 * am, g>> : acc \in Walk(G, 0, 0, <<>>)}
  /\ UNCHANGED <<L, G>>
Want ==
  UNION {{<<InOfPath(L, p), OutOfPath(L, p), 2 * (PW(L.f, p) - SumSeq([q \in 1..Len(p) |-> L.lm[p[q]]])), g>> : g \in GWeights(G, OutOfPath(L, p))} : p \in Paths(L.f)}
RescoredRight == pc = "rescored" => res = Want
\* totals of all outputs of the lattice: by intersection with the linear automaton of the words
Lin(w) == [n |-> Len(w) + 2, a |-> [k \in 1..(Len(w) + 1) |-> <<k - 1, k, IF k = Len(w) + 1 THEN -1 ELSE w[k], 0>>], c |-> [k \in 1..(Len(w) + 2) |-> IF k = Len(w) + 2 THEN 0 ELSE 1]]
Chosen ==
  /\ pc = "start" /\ pc' = "chosen"
  /\ res' = {<<w, FoldSet(LAMBDA acc, s : s + ProdW(L.f, LArc(acc)), 0, Walk(Lin(w), 0, 0, <<>>))>> : w \in {OutOfPath(L, p) : p \in Paths(L.f)}}
  /\ UNCHANGED <<L, G>>
ChosenRight == pc = "chosen" => \A r \in res : r[2] = SumOut(L, r[1])
Next == Rescored \/ Chosen
Spec == Init /\ [][Next]_vars
=============================================================================
