-------------------------------- MODULE MC21 --------------------------------
(* Laws between the per-sublist operations, on every small list of lists (two and three axes) of small values.                      *)
EXTENDS K2RagOps
CONSTANTS MaxItems, Depths, Vals
VARIABLES R, size
RECURSIVE Grown(_, _, _)
Grown(L, d, x) ==
  IF d = 1 THEN {Append(L, x)}
  ELSE {Append(L, <<>>)} \cup (IF L = <<>> THEN {} ELSE {[L EXCEPT ![Len(L)] = g] : g \in Grown(L[Len(L)], d - 1, x)})
Init == \E d \in Depths : R = EmptyR(d) /\ size = 0
Grow == size < MaxItems /\ \E x \in Vals : \E g \in Grown(R.v, R.d, x) : R' = Rag(R.d, g) /\ size' = size + 1
Next == Grow
NV == Len(Values(R))
\* the greatest element sits at the first place that ArgMaxOk allows; exactly the places of the greatest are allowed
ArgMaxIsMax == \A x0 \in {0, 2} : LET r == Rows(R)  mx == MaxRows(R, x0) IN
  \E m \in [1..Len(r) -> -1..(NV - 1)] : ArgMaxOk(R, x0, m) /\ \A i \in 1..Len(r) : IF m[i] = -1 THEN mx[i] = x0 ELSE mx[i] = Values(R)[m[i] + 1]
MinMax == LET neg == WithValues(R, [i \in 1..NV |-> 0 - Values(R)[i]]) IN MinRows(R, 0) = [i \in 1..Len(Rows(R)) |-> 0 - MaxRows(neg, 0)[i]]
Sums == SumUp(SumRows(R, 0)) = SumUp(Values(R)) /\ \A i \in 1..Len(Rows(R)) : LET S == Rows(R)[i]  e == Offs(R)[i + 1] IN S = <<>> \/ ExSum(R)[e] + S[Len(S)] = SumRows(R, 0)[i]
Bits == \A i \in 1..Len(Rows(R)) : BitAnd(AndRows(R, 7)[i], OrRows(R, 0)[i]) = (IF Rows(R)[i] = <<>> THEN 0 ELSE AndRows(R, 7)[i])
\* some order of each row is accepted as sorted, and sorting is accepted only of rearrangements
SortPossible == NV > 4 \/ R.d > 2 \/ \E m \in [1..NV -> 0..(NV - 1)] : SortOk(R, WithValues(R, [k \in 1..NV |-> Values(R)[m[k] + 1]]), m, FALSE)
\* keeping the first occurrences is accepted as unique; keeping everything only when nothing repeats
FirstOnly(S) == SelectSeq([i \in 1..Len(S) |-> i], LAMBDA i : \A j \in 1..(i - 1) : S[j] # S[i])
UniquePossible == R.d = 2 =>
  LET p == FirstOnly(R.v) IN
  /\ UniqueOk(R, Rag(2, [k \in 1..Len(p) |-> R.v[p[k]]]), <<[k \in 1..Len(p) |-> p[k] - 1]>>, <<Rag(2, <<[k \in 1..Len(p) |-> Cardinality({j \in 1..Len(R.v) : R.v[j] = R.v[p[k]]})]>>)>>)
  /\ UniqueOk(R, R, <<>>, <<>>) = (Len(p) = Len(R.v))
\* pruning keeps something of every nonempty group, and everything nonempty with a wide beam
PruneLaws == \A a \in 0..(R.d - 1) :
  LET I == Items(R, a)  all == SelectSeq([i \in 1..Len(I) |-> i - 1], LAMBDA i : ItemScore(I[i + 1], R.d - 1 - a) # MinusInf) IN
  PruneOk(R, a, 100, 0, all) /\ (all # <<>> => ~PruneOk(R, a, 100, 0, <<>>) /\ ~PruneOk(R, a, 0, 1, <<>>))
SelectAdd == LET x == [i \in 1..NV |-> <<i * 10>>]  idx == Values(R)
                 z == [i \in 1..4 |-> <<0>>] IN
  SumUp([i \in 1..4 |-> AddInto(z, idx, x)[i][1]]) = SumUp([i \in 1..NV |-> IF idx[i] = -1 THEN 0 ELSE i * 10])
=============================================================================
