--------------------------------- MODULE T19 ---------------------------------
(* Recorded transducer losses, prunings and lattices.                          *)
EXTENDS TraceBase, K2Transducer
Cl(b, name) == IF b THEN {} ELSE {name}
Abs(a) == IF a < 0 THEN -a ELSE a
Close(got, want, sc, q) == ~Odd(got) /\ Abs(got - sc * want) <= 1 + (sc * want) \div q
Near(got, want, tol) == ~Odd(got) /\ Abs(got - want) <= tol
Joiner(ev, e) ==
  [T |-> ev.T, S |-> ev.S, r |-> ev.r, w |-> e.w, sym |-> e.sym, blank |-> ev.blank, hat |-> ev.hat, N |-> ev.N, M |-> ev.M,
   e |-> IF ev.kind = "simple" THEN [t \in 1..ev.T |-> [s \in 1..(ev.S + 1) |-> [c \in 1..ev.C |-> e.u[s][c] * e.v[t][c]]]] ELSE e.e]
OneF(ev, i) ==
  LET e == ev.e[i]  j == Joiner(ev, e)  b == e.b  topo == ev.topo  mod == JMod(topo)
      X == JX(j, topo, ev.delay, b)  Y == JY(j)
      F == Fwd(mod, b, X, Y)  B == Bwd(mod, b, X, Y)  tot == F[<<b[3], b[4]>>]
      T1 == IF mod THEN ev.T - 1 ELSE ev.T
      xo == [s \in 0..ev.S |-> [t \in 0..ev.T |-> IF s = ev.S \/ t > T1 THEN 0 ELSE XOcc(mod, b, X, F, B, s, t)]]
      yo == [s \in 0..ev.S |-> [t \in 0..ev.T |-> IF t = ev.T THEN 0 ELSE YOcc(b, Y, F, B, s, t)]]
      \* how much is emitted in the cell as symbol, as blank
      sy(s, t) == xo[s][t]
      bl(s, t) == yo[s][t] + (IF topo = "constrained" /\ s > 0 THEN xo[s - 1][t] ELSE 0)
      co(s, t, c) == (IF s < ev.S /\ c = j.sym[s + 1] THEN sy(s, t) ELSE 0) + (IF c = j.blank THEN bl(s, t) ELSE 0)
      cell(s, t) == sy(s, t) + bl(s, t)
      row(s, t) == j.e[t + 1][s - j.w[t + 1] + 1]
      \* derivative of the loss with respect to the class score of a cell, times total * N (* M)
      g(s, t, c) ==
        IF ev.hat = 0 THEN (row(s, t)[c + 1] * cell(s, t)) - (ev.N * co(s, t, c))
        ELSE LET nb == cell(s, t) - co(s, t, 0) IN
             IF c = 0 THEN ((nb * row(s, t)[1]) - (co(s, t, 0) * (ev.N - row(s, t)[1]))) * ev.M
             ELSE ((nb * row(s, t)[c + 1]) - (co(s, t, c) * ev.M)) * ev.N
      tol == 2 + (tot * ev.N * ev.M) \div 2
      ok(got, want) == Near(got, 100 * e.k * want, tol)
      sum(f(_), n) == FoldFunction(LAMBDA x, y : x + y, 0, [t \in 0..n |-> f(t)]) IN
  Cl(IF tot = 0 THEN e.tot = 0 ELSE Close(e.tot, tot, ev.sc, 10000), "Total") \cup
  (IF tot = 0 \/ ev.occ = 0 THEN {} ELSE
     Cl((\A s \in 0..(ev.S - 1), t \in 0..T1 : Near(e.ox[s + 1][t + 1], 100 * xo[s][t], 2 + tot \div 2)) /\
        (\A s \in 0..ev.S, t \in 0..(ev.T - 1) : Near(e.oy[s + 1][t + 1], 100 * yo[s][t], 2 + tot \div 2)), "Occupation")) \cup
  (IF tot = 0 \/ ev.grad = 0 THEN {} ELSE
     IF ev.kind = "simple"
     THEN Cl((\A s \in 0..ev.S, c \in 0..(ev.C - 1) : ok(e.gu[s + 1][c + 1], sum(LAMBDA t : g(s, t, c), ev.T - 1))) /\
             (\A t \in 0..(ev.T - 1), c \in 0..(ev.C - 1) : ok(e.gv[t + 1][c + 1], sum(LAMBDA s : g(s, t, c), ev.S))), "Gradient")
     ELSE Cl(\A t \in 0..(ev.T - 1), k \in 0..(ev.r - 1), c \in 0..(ev.C - 1) :
               LET s == e.w[t + 1] + k IN ok(e.g[t + 1][k + 1][c + 1], g(s, t, c)), "Gradient"))
RedF(red, ls) == Cl(IF \E i \in 1..Len(ls) : ls[i] = PosInf THEN red = PosInf ELSE Near(red, SumSeq(ls), 20), "Reduction")
LossF(ev) ==
  UNION {OneF(ev, i) : i \in 1..Len(ev.e)} \cup
  Cl(ev.dtype = 1, "Dtype") \cup
  RedF(ev.red, ev.none)
\* ---- windows
RangesF(ev) ==
  LET r == ev.r  n == Len(ev.ranges)
      SE == [i \in 1..n |-> ev.b[i][3]]  TE == [i \in 1..n |-> ev.b[i][4]]
      need == IF ev.reg = 1 /\ ev.old = 0 THEN MaxOf({ev.r0} \cup {MinRange(SE[i], TE[i]) : i \in 1..n}) ELSE ev.r0
      rr == IF need > ev.S THEN ev.S + 1 ELSE need
      step == IF ev.reg = 1 THEN rr - 1 ELSE 1
      one(i) ==
        LET R == ev.ranges[i]  w == [t \in 1..ev.T |-> R[t][1]]
            \* gradient mass that the window keeps and that does not come from below it
            py(s, t) == ev.gy[i][s + 1][t + 1]
            px(s, t) == IF s < 0 THEN 0 ELSE ev.gx[i][s + 1][t + 1]
            pxo(s, t) == IF s < ev.S THEN ev.gx[i][s + 1][t + 1] ELSE 0
            mass(s, t) == IF ev.old = 1 THEN SumSeq([k \in 1..rr |-> py(s + k - 1, t) + pxo(s + k - 1, t)])
                          ELSE SumSeq([k \in 1..rr |-> py(s + k - 1, t)]) - px(s - 1, t)
            best(t) == {s \in 0..(ev.S + 1 - rr) : \A s2 \in 0..(ev.S + 1 - rr) : mass(s2, t) <= mass(s, t)}
            pad == MaxOf({0, SE[i] - rr + 1})
            uniq == \A t \in 0..(TE[i] - 2) : Cardinality(best(t)) = 1
            raw == [t \in 1..ev.T |-> IF t - 1 < TE[i] - 1 THEN MinOf(best(t - 1)) ELSE pad]
            one1 == [T |-> ev.T, S |-> ev.S, r |-> rr, w |-> w, sym |-> [s \in 1..ev.S |-> 1], blank |-> 0, hat |-> 0, N |-> 2, M |-> 1,
                     e |-> [t \in 1..ev.T |-> [k \in 1..rr |-> <<1, 1>>]]]
            bb == <<0, 0, SE[i], TE[i]>>  tp == IF ev.reg = 1 THEN "regular" ELSE "modified" IN
        Cl(\A t \in 1..ev.T : Len(R[t]) = rr /\ \A k \in 1..rr : R[t][k] = R[t][1] + k - 1, "Consecutive") \cup
        Cl(\A t \in 1..ev.T : w[t] >= 0 /\ w[t] + rr - 1 <= ev.S, "InRange") \cup
        Cl(GoodWindows(w, step), "Windows") \cup
        Cl(uniq => w = Adjust(raw, step), "Choice") \cup
        (IF (ev.old = 1 /\ ev.reg = 1 /\ rr < MinRange(SE[i], TE[i])) THEN {}
         ELSE Cl(w[TE[i]] = (IF ev.reg = 0 /\ rr = 1 /\ SE[i] = TE[i] THEN pad - 1 ELSE pad), "ReachEnd") \cup
              Cl(LTotal(ev.reg = 0, bb, JX(one1, tp, 0, bb), JY(one1)) > 0, "Survives")) IN
  Cl(r = rr, "Range") \cup (IF r # rr THEN {} ELSE UNION {one(i) : i \in 1..n})
GatherF(ev) == Cl(\A i \in 1..Len(ev.ranges) : \A t \in 1..ev.T : \A k \in 1..ev.r :
                    ev.oam[i][t][k] = ev.am[i][t] /\ ev.olm[i][t][k] = ev.lm[i][ev.ranges[i][t][k] + 1], "Gather")
\* ---- smoothed log-probabilities: weights u[s][c] (sum M), v[t][c]; 1000000ths
SmoothF(ev) ==
  LET U == [c \in 1..ev.C |-> SumSeq([i \in 1..Len(ev.e) |-> SumSeq([s \in 1..(ev.S + 1) |-> ev.e[i].u[s][c]])])]
      one(i) ==
        LET e == ev.e[i]
            am(t, c) == e.v[t][c] * U[c]
            amt(t) == SumSeq([c \in 1..ev.C |-> am(t, c)])
            cot(s, t) == SumSeq([c \in 1..ev.C |-> e.u[s][c] * e.v[t][c]])
            px(f, s, t) == f.x[i][s][t]  py(f, s, t) == f.y[i][s][t]
            p(f, want, tot) == ~Odd(f) /\ Abs((f * tot) - (100000 * want)) <= 4 * tot
            last(t) == ev.topo = "regular" /\ t - 1 = e.b[4]
            lin(got, m, lo, a) == Near(10 * got, ((10 - ev.l - ev.a) * m) + (ev.l * lo) + (ev.a * a), 60) IN
        Cl(\A s \in 1..ev.S, t \in 1..ev.T : last(t) \/ LET c == e.sym[s] + 1 IN p(px(ev.pam, s, t), am(t, c), amt(t)), "AmOnly") \cup
        Cl(\A s \in 1..(ev.S + 1), t \in 1..ev.T : LET c == ev.blank + 1 IN p(py(ev.pam, s, t), am(t, c), amt(t)), "AmOnly") \cup
        Cl(\A s \in 1..ev.S, t \in 1..ev.T : last(t) \/ p(px(ev.plm, s, t), e.u[s][e.sym[s] + 1], ev.M), "LmOnly") \cup
        Cl(\A s \in 1..(ev.S + 1), t \in 1..ev.T : p(py(ev.plm, s, t), e.u[s][ev.blank + 1], ev.M), "LmOnly") \cup
        Cl(\A s \in 1..ev.S, t \in 1..ev.T : last(t) \/ LET c == e.sym[s] + 1 IN p(px(ev.pco, s, t), e.u[s][c] * e.v[t][c], cot(s, t)), "Combined") \cup
        Cl(\A s \in 1..(ev.S + 1), t \in 1..ev.T : LET c == ev.blank + 1 IN p(py(ev.pco, s, t), e.u[s][c] * e.v[t][c], cot(s, t)), "Combined") \cup
        \* logarithms (10000ths) interpolate linearly; constrained: plus the blank that must follow
        Cl(\A s \in 1..(ev.S + 1), t \in 1..ev.T : lin(py(ev.lmix, s, t), py(ev.lco, s, t), py(ev.llm, s, t), py(ev.lam, s, t)), "Mix") \cup
        Cl(\A s \in 1..ev.S, t \in 1..ev.T :
             LET d == IF ev.topo = "constrained" THEN py(ev.lmix, s + 1, t) ELSE 0 IN
             IF ev.topo = "regular" /\ t - 1 = e.b[4] THEN px(ev.lmix, s, t) = NegInf
             ELSE lin(px(ev.lmix, s, t) - d, px(ev.lco, s, t), px(ev.llm, s, t), px(ev.lam, s, t)), "Mix") \cup
        Cl(ev.topo # "regular" \/ \A s \in 1..ev.S : px(ev.lmix, s, e.b[4] + 1) = NegInf, "LastFrame") IN
  UNION {one(i) : i \in 1..Len(ev.e)} \cup
  Cl(\A i \in 1..Len(ev.loss) : Near(ev.loss[i], ev.rec[i], 20), "Loss") \cup
  RedF(ev.red, ev.loss)
\* ---- lattice from windows
ArcOf(A, s) == {a \in ToSet(A) : a[1] = s}
RECURSIVE ArcPaths(_, _, _)
ArcPaths(A, fin, s) == (IF s = fin THEN {<<>>} ELSE {}) \cup UNION {{<<<<a[3], a[4], a[5]>>>> \o z : z \in ArcPaths(A, fin, a[2])} : a \in ArcOf(A, s)}
LatF(ev) ==
  LET one(i) ==
        LET w == ev.w[i]  n == ev.frames[i]  r == ev.r  A == ev.arcs[i]
            flat(s, t, c) == ((((i - 1) * ev.T + t) * r + (s - w[t + 1])) * ev.C) + c
            lab(z) == IF z[1] = 1 THEN ev.sym[i][z[2] + 1] ELSE 0
            val(z) == LET q == flat(z[2], z[3], lab(z)) IN <<lab(z), ev.logits[q + 1], q>>
            want == {[k \in 1..Len(z) |-> val(z[k])] \o <<<<-1, 0, -1>>>> : z \in LatPaths(w, r, n, w[1], 0)}
            acyc == \A a \in ToSet(A) : a[1] < a[2] IN
        IF n = 0 THEN Cl(A = <<>>, "NoFrames")
        ELSE Cl(acyc, "Order") \cup (IF acyc THEN Cl(ArcPaths(A, ev.ns[i] - 1, 0) = want, "Alignments") \cup
               Cl(Len(A) = Cardinality(ToSet(A)), "ArcOnce") ELSE {}) IN
  UNION {one(i) : i \in 1..Len(ev.arcs)}
TFailing(ev, s) ==
  CASE ev.op = "loss" -> LossF(ev)
    [] ev.op = "ranges" -> RangesF(ev)
    [] ev.op = "gather" -> GatherF(ev)
    [] ev.op = "smooth" -> SmoothF(ev)
    [] ev.op = "lattice" -> LatF(ev)
    [] OTHER -> {"UnknownOp"}
TStep(ev, s) == s
=============================================================================
