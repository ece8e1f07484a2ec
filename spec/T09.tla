--------------------------------- MODULE T09 ---------------------------------
(* Recorded gradients.  A result automaton is given with, per arc, the list  *)
(* (with repetition) of the source arcs of every leaf that it descends from. *)
EXTENDS TraceBase, K2Grad
Cnt(L, k) == Cardinality({j \in 1..Len(L) : L[j] = k})
AOff(R, i) == SumSeq([j \in 1..(i - 1) |-> Len(R.f[j].a)])
\* the score of every result arc is what its source arcs contribute
SrcScore(ev, R, j) ==
  LET G(lf, L) == FoldLeft(LAMBDA x, k : Mul(ev.mode, x, ev.w[lf][k]), One(ev.mode), L) IN
  FoldLeft(LAMBDA x, lf : Mul(ev.mode, x, G(lf, R.ids[lf][j])), One(ev.mode), [n \in 1..Len(ev.w) |-> n])
ScoreOk(ev, R) == \A i \in 1..Len(R.f) : \A k \in 1..NArcs(R.f[i]) : R.f[i].a[k][4] = SrcScore(ev, R, AOff(R, i) + k)
MapOk(ev, R) == \A lf \in 1..Len(ev.w) : Len(R.ids[lf]) = AOff(R, Len(R.f) + 1) /\
                \A j \in 1..Len(R.ids[lf]) : \A x \in 1..Len(R.ids[lf][j]) : R.ids[lf][j][x] \in 1..Len(ev.w[lf])
\* contribution of u * total(element i of R) to the gradient of leaf lf
Contr(ev, R, i, lf, sh) ==
  LET o == AOff(R, i) IN
  FoldLeft(LAMBDA g, k : IF sh[k] = 0 THEN g ELSE FoldLeft(LAMBDA h, x : [h EXCEPT ![x] = @ + sh[k]], g, R.ids[lf][o + k]),
           [k \in 1..Len(ev.w[lf]) |-> 0], [k \in 1..NArcs(R.f[i]) |-> k])
AddV(x, y, c) == [k \in 1..Len(x) |-> x[k] + c * y[k]]
NoV(ev, lf) == [k \in 1..Len(ev.w[lf]) |-> 0]
\* log: expected gradient of sum over terms <<result, element, weight>>
LogGrad(ev, lf) ==
  FoldLeft(LAMBDA g, t : LET R == ev.res[t[1]]  F == R.f[t[2]] IN
             IF F.n = 0 THEN g ELSE
             LET T == Tot(F, "log") IN
             IF T = 0 THEN g ELSE
             LET num == Contr(ev, R, t[2], lf, Post(F, "log")) IN
             AddV(g, [k \in 1..Len(num) |-> (S * num[k]) \div T], t[3]),
           NoV(ev, lf), ev.terms)
\* best paths by their arcs
RECURSIVE BestPaths(_, _, _, _, _, _)
BestPaths(F, fw, bw, offs, s, p) ==
  IF s = Final(F) THEN {p}
  ELSE UNION {BestPaths(F, fw, bw, offs, Dst(F, k), p \cup {k}) :
                k \in {j \in OutOf(F, offs, s) : Plus(Plus(fw[s], Wt(F, j)), bw[Dst(F, j)]) = fw[Final(F)]}}
UnitOk(ev, u) ==     \* [r, i, g]: the gradient of one total alone
  LET R == ev.res[u.r]  F == R.f[u.i] IN
  IF Tot(F, "trop") = NegInf THEN (\E k \in 1..NArcs(F) : Wt(F, k) = NegInf) \/ \A lf \in 1..Len(ev.w) : u.g[lf] = NoV(ev, lf)
  ELSE LET fw == Fwd(F, "trop")  bw == Bwd(F, "trop") IN
       \E p \in BestPaths(F, fw, bw, Offs(F), 0, {}) :
         \A lf \in 1..Len(ev.w) : u.g[lf] = IF ev.rg[lf] = 0 THEN NoV(ev, lf)
                                            ELSE Contr(ev, R, u.i, lf, [k \in 1..NArcs(F) |-> IF k \in p THEN 1 ELSE 0])
UnitSum(ev, lf) == FoldLeft(LAMBDA g, t : LET u == ev.units[t[4]] IN AddV(g, u.g[lf], t[3]), NoV(ev, lf), ev.terms)
Tol(ev) == 3 * (1 + SumSeq([k \in 1..Len(ev.terms) |-> (IF ev.terms[k][3] < 0 THEN -ev.terms[k][3] ELSE ev.terms[k][3]) * ev.depth]))
GradF(ev) ==
  IF \E r \in 1..Len(ev.res) : ~MapOk(ev, ev.res[r]) THEN {"SourceMap"} ELSE
  (IF \A r \in 1..Len(ev.res) : ScoreOk(ev, ev.res[r]) THEN {} ELSE {"ScoreOfSources"}) \cup
  (IF ev.mode = "log" THEN
     (IF \A lf \in 1..Len(ev.w) : IF ev.rg[lf] = 0 THEN ev.out[lf] = NoV(ev, lf)
          ELSE LET g == LogGrad(ev, lf) IN Len(ev.out[lf]) = Len(g) /\ \A k \in 1..Len(g) : Near(ev.out[lf][k], g[k], Tol(ev))
      THEN {} ELSE {"PosteriorGradient"})
   ELSE
     (IF \A i \in 1..Len(ev.units) : UnitOk(ev, ev.units[i]) THEN {} ELSE {"BestPathGradient"}) \cup
     (IF \A lf \in 1..Len(ev.w) : ev.out[lf] = UnitSum(ev, lf) THEN {} ELSE {"WeightedGradient"}))

\* derivative of forward / backward / posterior scores of one batch w.r.t. its own arcs; terms <<element, state or arc, weight>>
DOne(ev, F, x) == CASE ev.what = "fwd" -> DFwd(F, ev.mode, x) [] ev.what = "bwd" -> DBwd(F, ev.mode, x) [] OTHER -> DPost(F, ev.mode, x)
Defined(ev, F, x) == CASE ev.what = "fwd" -> Fwd(F, ev.mode)[x] # Zero(ev.mode) /\ (ev.mode = "trop" => Ties(F, 0, x) = 1)
  [] ev.what = "bwd" -> Bwd(F, ev.mode)[x] # Zero(ev.mode) /\ (ev.mode = "trop" => Ties(F, x, Final(F)) = 1)
  [] OTHER -> Post(F, ev.mode)[x] # Zero(ev.mode) /\
              (ev.mode = "trop" => Ties(F, 0, Src(F, x)) = 1 /\ Ties(F, Dst(F, x), Final(F)) = 1 /\ Ties(F, 0, Final(F)) = 1)
DerF(ev) ==
  IF \E i \in 1..Len(ev.terms) : ~Defined(ev, ev.f[ev.terms[i][1]], ev.terms[i][2]) THEN {}
  ELSE LET G(i) == FoldLeft(LAMBDA g, t : IF t[1] # i THEN g ELSE AddV(g, DOne(ev, ev.f[i], t[2]), t[3]),
                            [k \in 1..NArcs(ev.f[i]) |-> 0], ev.terms)
           want == FoldLeft(LAMBDA x, i : x \o G(i), <<>>, [i \in 1..Len(ev.f) |-> i]) IN
       IF Len(ev.out) = Len(want) /\ \A k \in 1..Len(want) : Near(ev.out[k], want[k], 4 * (1 + Len(ev.terms) * 5)) THEN {} ELSE {"Derivative:" \o ev.what}

TFailing(ev, s) ==
  CASE ev.op = "grad" -> GradF(ev)
    [] ev.op = "der" -> DerF(ev)
    [] OTHER -> {"UnknownOp"}
TStep(ev, s) == s
=============================================================================
