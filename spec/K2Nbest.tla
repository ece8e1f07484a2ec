------------------------------- MODULE K2Nbest -------------------------------
(* Lists of the n best paths of each lattice of a batch.                       *)
(* L = [f |-> automaton, x |-> for each arc a sequence of output symbols]      *)
EXTENDS K2Wfsa
Pos(s) == SelectSeq(s, LAMBDA v : v > 0)
Cat(ss) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ss)
OutOfPath(L, p) == Pos(Cat([i \in 1..Len(p) |-> L.x[p[i]]]))
InOfPath(L, p) == PathLabs(L.f, p)
PW(F, p) == IF \E i \in 1..Len(p) : Wt(F, p[i]) = NegInf THEN NegInf ELSE PathW(F, p)
IsRoute(F, p) ==
  /\ F.n > 0 /\ Len(p) > 0 /\ \A i \in 1..Len(p) : p[i] \in 1..NArcs(F)
  /\ Src(F, p[1]) = 0 /\ Dst(F, p[Len(p)]) = Final(F)
  /\ \A i \in 1..(Len(p) - 1) : Dst(F, p[i]) = Src(F, p[i + 1])
LinearForm(O) == Len(O.a) = O.n - 1 /\ \A k \in 1..Len(O.a) : O.a[k][1] = k - 1 /\ O.a[k][2] = k
Distinct(ss) == Cardinality({ss[i] : i \in 1..Len(ss)}) = Len(ss)
SetOf(ss) == {ss[i] : i \in 1..Len(ss)}
\* best score of a lattice path that reads the given labels (epsilons of the lattice are free)
Greatest(S) == IF S = {} THEN NegInf ELSE Max(S)
BestFor(F, labs) == Greatest({PW(F, p) : p \in {q \in Paths(F) : PathLabs(F, q) = labs}})
\* without epsilons in the automaton
BestPlain(F, labs) == IF F.n = 0 THEN NegInf ELSE AcceptW(F, FoldLeft(LAMBDA V, y : StepLab(F, V, y), StartVec(F), labs))
\* the k entries kept of n with the given totals: ids of the entries, best first, the last one repeated
TopK(tot, k, ids) ==
  LET n == Len(tot)  m == Min2(k, n) IN
  /\ Len(ids) = k /\ \A j \in 1..k : ids[j] \in 1..n
  /\ Cardinality({ids[j] : j \in 1..m}) = m
  /\ \A j \in 1..(k - 1) : tot[ids[j]] >= tot[ids[j + 1]]
  /\ \A u \in (1..n) \ {ids[j] : j \in 1..m} : tot[u] <= tot[ids[m]]
  /\ \A j \in (m + 1)..k : ids[j] = ids[m]
=============================================================================
