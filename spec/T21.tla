--------------------------------- MODULE T21 ---------------------------------
(* Recorded per-sublist operations and their gradients.                                                                             *)
EXTENDS TraceBase, K2RagOps
Cl(b, name) == IF b THEN {} ELSE {name}
Near(x, y, tol) == x - y <= tol /\ y - x <= tol
AllNear(x, y, tol) == Len(x) = Len(y) /\ \A i \in 1..Len(x) : Near(x[i], y[i], tol)
\* element-wise gradient when each row's result has the upstream gradient g
Spread(R, g) == CatAll(LET r == Rows(R) IN [i \in 1..Len(r) |-> [k \in 1..Len(r[i]) |-> g[i]]])
DenseShape(X, Y) == Len(X) = Len(Y) /\ \A i \in 1..Len(X) : Len(X[i]) = Len(Y[i])
TFailing(ev, s) ==
  LET R == FromViews(ev.r)  o == ev.op IN
  CASE o = "sum" -> Cl(ev.out = SumRows(R, ev.init), "Sum") \cup (IF ev.g = <<>> THEN {} ELSE Cl(ev.grad = Spread(R, ev.g), "SumGradient"))
    [] o = "max" -> Cl(ev.out = MaxRows(R, ev.init), "Max")
    [] o = "min" -> Cl(ev.out = MinRows(R, ev.init), "Min")
    [] o = "and" -> Cl(ev.out = AndRows(R, ev.init), "And")
    [] o = "or" -> Cl(ev.out = OrRows(R, ev.init), "Or")
    [] o = "argmax" -> Cl(ArgMaxOk(R, ev.init, ev.out), "ArgMax")
    [] o = "exsum" -> Cl(ev.out = ExSum(R), "ExclusiveSum")
    [] o = "add" -> Cl(FromViews(ev.o) = AddRows(R, ev.v, ev.alpha), "Add")
    [] o = "sort" -> Cl(SortOk(R, FromViews(ev.o), ev.m, ev.desc = 1), "Sort") \cup Cl(ev.before = Values(R), "Setup")
    [] o = "unique" -> Cl(\A k \in 1..Len(ev.reps) : WellFormedViews(ev.reps[k]), "UniqueCounts") \cup Cl(WellFormedViews(ev.o), "UniqueForm") \cup
                       (IF WellFormedViews(ev.o) /\ (\A k \in 1..Len(ev.reps) : WellFormedViews(ev.reps[k]))
                        THEN Cl(UniqueOk(R, FromViews(ev.o), ev.m, [k \in 1..Len(ev.reps) |-> FromViews(ev.reps[k])]), "Unique") ELSE {})
    [] o = "prune" -> Cl(PruneOk(R, ev.axis, ev.beam, ev.mx, ev.m), "Prune") \cup Cl(FromViews(ev.o) = IndexAxis(R, ev.axis, ev.m), "PruneApplied")
    [] o = "reorder" -> Cl(ReorderOk(R, ev.m), "TransposeReordering")
    [] o = "counts" -> Cl(FromViews(ev.o) = Counts(R, FromViews(ev.s)), "Counts")
    [] o = "hash" -> Cl(\A k \in 1..Len(ev.m) : HashOk(R, ev.m[k]), "Hash")
    \* values are logarithms of the integers in r; out holds exp of the results
    [] o = "logsumexp" -> Cl(AllNear(ev.out, SumRows(R, ev.init), 0), "LogSumExp") \cup
         (IF ev.g = <<>> THEN {} ELSE
          LET T == Spread(R, SumRows(R, ev.init))  G == Spread(R, ev.g)  w == Values(R) IN
          Cl(Len(ev.grad) = Len(w) /\ \A i \in 1..Len(w) : T[i] = 0 \/ Near(ev.grad[i] * T[i], 10000 * G[i] * w[i], 4 * T[i]), "LogSumExpGradient"))
    [] o = "normalize" ->
         LET T == Spread(R, SumRows(R, 0))  w == Values(R)  O == FromViews(ev.o)  ow == Values(O) IN
         Cl(O.d = R.d /\ Zeros(O) = Zeros(R), "NormalizeShape") \cup
         Cl(Len(ow) = Len(w) /\ \A i \in 1..Len(w) : Near(ow[i] * T[i], 100000 * w[i], 4 * T[i]), "Normalize") \cup
         (IF ev.g = <<>> THEN {} ELSE
          LET r == Rows(R)  f == Offs(R)  GS == Spread(R, [i \in 1..Len(r) |-> SumUp(SubSeq(ev.g, f[i] + 1, f[i + 1]))]) IN
          Cl(Len(ev.grad) = Len(w) /\ \A i \in 1..Len(w) : Near(ev.grad[i] * T[i], 10000 * (ev.g[i] * T[i] - w[i] * GS[i]), 6 * T[i]), "NormalizeGradient"))
    \* dense
    [] o = "select" -> Cl(ev.out = Select(ev.x, ev.idx, ev.df), "Select") \cup
         (IF ev.g = <<>> THEN {} ELSE Cl(ev.grad = AddInto([i \in 1..Len(ev.x) |-> [c \in 1..Len(ev.x[i]) |-> 0]], ev.idx, ev.g), "SelectGradient"))
    [] o = "addinto" -> Cl(ev.out = AddInto(ev.x, ev.idx, ev.y), "IndexAdd")
    [] o = "indexsum" -> Cl(ev.out = IndexSum(ev.x, R), "IndexAndSum") \cup
         (IF ev.g = <<>> THEN {} ELSE
          Cl(ev.grad = [j \in 1..Len(ev.x) |-> SumUp([i \in 1..Len(R.v) |-> ev.g[i] * Cardinality({k \in 1..Len(R.v[i]) : R.v[i][k] = j - 1})])], "IndexAndSumGradient"))
    [] o = "maps" -> Cl(ev.out = [i \in 1..Len(ev.idx) |-> IF ev.idx[i] = -1 THEN -1 ELSE ev.x[ev.idx[i] + 1]], "ComposeArcMaps")
    [] o = "same" -> Cl(ev.r = ev.r2, "OperandsUnchanged")
    [] o = "flags" -> Cl(ev.ok = 1, "Type")
    [] OTHER -> {"UnknownEvent"}
TStep(ev, s) == s
=============================================================================
