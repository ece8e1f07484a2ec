--------------------------------- MODULE R16 ---------------------------------
(* Recorded CTC topologies, CTC graphs and losses.                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, K2Ctc
Cl(b, name) == IF b THEN {} ELSE {name}
T16Init == 0
Abs(a) == IF a < 0 THEN -a ELSE a
Delta(v, V) == [t \in 1..Len(v) |-> [c \in 1..(V + 1) |-> IF c = v[t] + 1 THEN 1 ELSE 0]]
NoPen(p) == [t \in 1..Len(p) |-> 0]
Bump(B, k, v) == IF k \in DOMAIN B THEN [B EXCEPT ![k] = @ + v] ELSE (k :> v) @@ B
\* bag of outputs over the paths of F that read exactly the frames x (label 0 is a frame, too)
Reads(F, aux, x) ==
  LET step(B, lab) == FoldSet(LAMBDA q, Z :
        FoldSet(LAMBDA k, Y : IF Src(F, k) = q[1] /\ Lab(F, k) = lab
                              THEN Bump(Y, <<Dst(F, k), IF aux[k] \in {0, -1} THEN q[2] ELSE Append(q[2], aux[k])>>, B[q]) ELSE Y,
                Z, 1..NArcs(F)), [q \in {} |-> 0], DOMAIN B)
      R == FoldLeft(step, <<0, <<>>>> :> 1, x \o <<-1>>) IN
  FoldSet(LAMBDA q, Z : IF q[1] = Final(F) THEN Bump(Z, q[2], R[q]) ELSE Z, [q \in {} |-> 0], DOMAIN R)
\* number of label sequences weighted by segmentations: one (standard), all ways to cut the runs (modified)
RunCut(x) == FoldLeft(LAMBDA m, t : IF t > 1 /\ x[t] # 0 /\ x[t] = x[t - 1] THEN 2 * m ELSE m, 1, [t \in 1..Len(x) |-> t])
BagSum(B) == FoldSet(LAMBDA k, m : m + B[k], 0, DOMAIN B)
Unit(F) == \A k \in 1..NArcs(F) : Wt(F, k) = 0
TopoF(ev) ==
  IF ~ValidFsa(ev.f) \/ Len(ev.aux) # NArcs(ev.f) THEN {"Format"} ELSE
  Cl(Unit(ev.f), "Scores") \cup
  UNION {LET x == ev.xs[i]  B == Reads(ev.f, ev.aux, x)  mod == ev.mod = 1 IN
         Cl(\A y \in DOMAIN B : B[y] = Total(y, mod, Delta(x, ev.V), NoPen(x)), "Relation") \cup
         Cl(BagSum(B) = IF mod THEN RunCut(x) ELSE 1, "RelationComplete") : i \in 1..Len(ev.xs)}
AOff(S, i) == SumSeq([j \in 1..(i - 1) |-> Len(S[j].a)])
GraphF(ev) ==
  IF Len(ev.f) # Len(ev.ys) THEN {"Count"} ELSE
  UNION {LET F == ev.f[i]  o == AOff(ev.f, i)  y == ev.ys[i] IN
         IF ~ValidFsa(F) \/ Len(ev.aux) # AOff(ev.f, Len(ev.f) + 1) THEN {"Format"} ELSE
         LET aux == SubSeq(ev.aux, o + 1, o + NArcs(F)) IN
         Cl(Unit(F), "Scores") \cup
         UNION {LET x == ev.xs[i][j]  B == Reads(F, aux, x)  n == Total(y, ev.mod = 1, Delta(x, ev.V), NoPen(x)) IN
                Cl(DOMAIN B \subseteq {y} /\ BagSum(B) = n, "Alignments") : j \in 1..Len(ev.xs[i])} : i \in 1..Len(ev.f)}
TrivialF(ev) ==
  IF ~ValidFsa(ev.f) \/ Len(ev.aux) # NArcs(ev.f) THEN {"Format"} ELSE
  LET F == ev.f  m == ev.V IN
  Cl(F.n = 2 /\ NArcs(F) = m + 1 /\ Unit(F), "TrivialShape") \cup
  Cl({<<Src(F, k), Dst(F, k), Lab(F, k), ev.aux[k]>> : k \in 1..NArcs(F)} = {<<0, 0, s, s>> : s \in 1..m} \cup {<<0, 1, -1, -1>>}, "TrivialArcs")
(* ---- losses ---- *)
Frames(ev, i) == LET g == ev.segs[i]  row == ev.p[g[1] + 1]  d == IF g[2] + g[3] > Len(row) THEN Len(row) - g[2] ELSE g[3]
                 IN [t \in 1..d |-> row[g[2] + t]]
\* a delay penalty of log 2, in units that make every power of two an integer
PenOf(ev, p) == [t \in 1..Len(p) |-> IF ev.delay = 1 THEN Len(p) - t ELSE 0]
UttTotal(ev, i, p, q) ==      \* kept arcs by p, summed with q
  LET A == ev.alts[i]  mod == ev.mod = 1 IN
  SumSeq([j \in 1..Len(A) |-> IF ev.K = 0 THEN Total(A[j], mod, q, PenOf(ev, p))
                              ELSE KeptTotal(A[j], KeptArcs(A[j], mod, p, NoPen(p), ev.K), q, PenOf(ev, p))])
Near(got, want) == ~Odd(got) /\ Abs(got - 1000 * want) <= 1 + want \div 10
LossF(ev) ==
  LET n == Len(ev.segs)  tot == [i \in 1..n |-> UttTotal(ev, i, Frames(ev, i), Frames(ev, i))]
      some == \E i \in 1..n : tot[i] = 0 IN
  UNION {Cl(IF tot[i] = 0 THEN ev.tot[i] = 0 ELSE Near(ev.tot[i], tot[i]), "Loss") : i \in 1..n} \cup
  (IF some THEN Cl(ev.sum = PosInf /\ ev.mean = PosInf, "Reduction") ELSE
   Cl(Abs(ev.sum - SumSeq(ev.loss)) <= 2 * n + 30, "SumReduction") \cup
   Cl(Abs(ev.mean - SumSeq([i \in 1..n |-> ev.loss[i] \div ev.len[i]]) \div n) <= n + 5, "MeanReduction")) \cup
  (IF ev.hasgrad = 0 \/ (some /\ ev.red # "none") THEN {} ELSE
   UNION {LET p == Frames(ev, i)  g == ev.segs[i] IN
          IF tot[i] = 0 THEN Cl(\A t \in 1..Len(p), c \in 1..ev.C : ev.grad[g[1] + 1][g[2] + t][c] = 0, "GradientOfNothing") ELSE
          Cl(\A t \in 1..Len(p), c \in 1..ev.C :
               LET want == -ev.w[i] * UttTotal(ev, i, p, Only(p, t, c - 1))  got == ev.grad[g[1] + 1][g[2] + t][c] IN
               Abs(got - 1000 * want) <= 2 + (tot[i] * ev.w[i]) \div 5, "Gradient") : i \in 1..n} \cup
   Cl(\A b \in 1..Len(ev.grad) : \A t \in 1..Len(ev.grad[b]) :
        (\A i \in 1..n : ~(ev.segs[i][1] + 1 = b /\ t > ev.segs[i][2] /\ t <= ev.segs[i][2] + ev.segs[i][3])) =>
        \A c \in 1..ev.C : ev.grad[b][t][c] = 0, "GradientOutside"))
TFailing(ev, s) ==
  CASE ev.op = "topo" -> TopoF(ev)
    [] ev.op = "graph" -> GraphF(ev)
    [] ev.op = "trivial" -> TrivialF(ev)
    [] ev.op = "loss" -> LossF(ev)
    [] OTHER -> {"UnknownOp"}
TStep(ev, s) == s
=============================================================================
