--------------------------------- MODULE T17 ---------------------------------
(* Recorded Levenshtein graphs, alignments and minimum-word-error losses.     *)
EXTENDS TraceBase, K2Lev
Cl(b, name) == IF b THEN {} ELSE {name}
Abs(a) == IF a < 0 THEN -a ELSE a
AOff(S, i) == SumSeq([j \in 1..(i - 1) |-> Len(S[j].a)])
GraphF(ev) ==
  IF Len(ev.f) # Len(ev.ys) \/ Len(ev.aux) # AOff(ev.f, Len(ev.f) + 1) THEN {"Count"} ELSE
  UNION {LET F == ev.f[i]  o == AOff(ev.f, i)  G == Graph(ev.ys[i], ev.q) IN
         IF ~ValidFsa(F) THEN {"Format"} ELSE
         UNION {LET z == ev.zs[i][j] IN
                Cl(BestReads(F, SubSeq(ev.aux, o + 1, o + NArcs(F)), z) = BestReads(G, G.aux, z), "Language") : j \in 1..Len(ev.zs[i])} : i \in 1..Len(ev.f)}
AlignF(ev) ==
  IF Len(ev.f) # Len(ev.hyps) \/ Len(ev.tot) # Len(ev.f) THEN {"Count"} ELSE
  UNION {LET F == ev.f[i]  o == AOff(ev.f, i)  r == ev.refs[ev.map[i] + 1]  h == ev.hyps[i]  m == NArcs(F) - 1 IN
         IF ~ValidFsa(F) \/ F.n # m + 2 \/ ~(\A k \in 1..NArcs(F) : Src(F, k) = k - 1 /\ Dst(F, k) = k) THEN {"NotLinear"} ELSE
         LET z == [k \in 1..m |-> <<ev.rl[o + k], ev.hl[o + k]>>] IN
         Cl(ev.rl[o + m + 1] = -1 /\ ev.hl[o + m + 1] = -1 /\ Wt(F, m + 1) = 0, "FinalArc") \cup
         Cl(IsScript(z, r, h), "Script") \cup
         Cl(ScriptCost(z, Half - ev.qr, Half - ev.qh) = Wd(r, h, Half - ev.qr, Half - ev.qh), "NotBest") \cup
         Cl(\A k \in 1..m : Lab(F, k) = (IF z[k][1] = z[k][2] THEN z[k][1] ELSE 0) /\ Wt(F, k) = (IF z[k][1] = z[k][2] THEN 0 ELSE -1000), "Labels") \cup
         Cl(ev.tot[i] = -1000 * Edits(z), "Total") : i \in 1..Len(ev.f)} \cup
  Cl(ev.same = 1, "OperandChanged")
(* ---- minimum word error ---- *)
RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE Head(s) * Prod(Tail(s))
Words(ev, p) == SelectSeq(FlattenSeq([k \in 1..Len(p) |-> ev.aux[p[k] + 1]]), LAMBDA v : v > 0)
MwerF(ev) ==
  LET n == Len(ev.paths)
      P == [u \in 1..n |-> [i \in 1..Len(ev.paths[u]) |-> Prod([k \in 1..Len(ev.paths[u][i]) |-> ev.w[ev.paths[u][i][k] + 1]])]]
      E == [u \in 1..n |-> [i \in 1..Len(ev.paths[u]) |-> Dist(ev.refs[u], Words(ev, ev.paths[u][i]))]]
      S == [u \in 1..n |-> Tot(P[u])]
      np == SumSeq([u \in 1..n |-> Len(P[u])])
      X == [u \in 1..n |-> (Avg(P[u], E[u]) * 10000) \div S[u]]
      v(u, i) == IF ev.red = "none" THEN ev.v[u][i] ELSE 1
      AV(u) == SumSeq([i \in 1..Len(P[u]) |-> P[u][i] * E[u][i] * v(u, i)])
      G(u, a) == SumSeq([i \in 1..Len(P[u]) |-> IF a \in ToSet(ev.paths[u][i]) THEN P[u][i] * (E[u][i] * v(u, i) * S[u] - AV(u)) ELSE 0]) IN
  (CASE ev.red = "none" -> IF Len(ev.loss) # n \/ ~(\A u \in 1..n : Len(ev.loss[u]) = Len(P[u])) THEN {"Shape"}
                          ELSE Cl(\A u \in 1..n : \A i \in 1..Len(P[u]) : Abs(ev.loss[u][i] - 1000 * P[u][i] * E[u][i]) <= 1 + (P[u][i] * E[u][i]) \div 5, "Loss")
    [] ev.red = "sum" -> Cl(Abs(ev.loss - SumSeq(X)) <= n + 1 + SumSeq(X) \div 10000, "Sum")
    [] ev.red = "mean" -> Cl(Abs(ev.loss * np - SumSeq(X)) <= n + np + 1 + SumSeq(X) \div 10000, "Mean"))
  \cup (IF ev.hasgrad = 0 THEN {} ELSE
        Cl(\A u \in 1..n : \A a \in ev.arcs[u][1]..ev.arcs[u][2] :
             Abs(ev.grad[a + 1] - 100 * G(u, a)) <= 3 + (S[u] * S[u]) \div 100, "Gradient"))
TFailing(ev, s) ==
  CASE ev.op = "graph" -> GraphF(ev)
    [] ev.op = "align" -> AlignF(ev)
    [] ev.op = "mwer" -> MwerF(ev)
    [] OTHER -> {"UnknownOp"}
TStep(ev, s) == s
=============================================================================
