--------------------------------- MODULE T18 ---------------------------------
(* Recorded lattice recursions.  Scores are logarithms of integers.           *)
EXTENDS TraceBase, K2Lattice
Cl(b, name) == IF b THEN {} ELSE {name}
Abs(a) == IF a < 0 THEN -a ELSE a
Close(got, want, q) == ~Odd(got) /\ Abs(got - 1000 * want) <= 1 + (1000 * want) \div q
Close2(got, want, tot) == ~Odd(got) /\ Abs(got - 1000 * want) <= 2 + tot      \* 1/1000 of the total
\* clauses about one sequence of the batch
OneF(ev, i) ==
  LET e == ev.e[i]  mod == ev.mod = 1  X == e.x  Y == e.y  b == e.b
      F == Fwd(mod, b, X, Y)  B == Bwd(mod, b, X, Y)  tot == F[<<b[3], b[4]>>]
      T1 == IF mod THEN ev.T - 1 ELSE ev.T
      gradOk(gx, gy, k) ==
        /\ \A s \in 0..(ev.S - 1) : \A t \in 0..T1 : LET o == XOcc(mod, b, X, F, B, s, t)  g == gx[s + 1][t + 1] IN Close2(g, o * k, k * tot) /\ (o = 0 => g = 0)
        /\ \A s \in 0..ev.S : \A t \in 0..(ev.T - 1) : LET o == YOcc(b, Y, F, B, s, t)  g == gy[s + 1][t + 1] IN Close2(g, o * k, k * tot)
             /\ (~(In(b, <<s, t>>) /\ In(b, <<s, t + 1>>)) => g = 0) IN
  Cl(IF tot = 0 THEN e.tot = 0 ELSE Close(e.tot, tot, ev.q), "Total") \cup
  (IF tot = 0 THEN {} ELSE
   (IF ev.occ = 0 THEN {} ELSE Cl(gradOk(e.ox, e.oy, 1), "Occupation")) \cup
   (IF ev.grad = 0 THEN {} ELSE Cl(gradOk(e.gx, e.gy, e.w), "Gradient")) \cup
   UNION {LET m == ev.parts[j]
              want == SumSeq([s \in 1..ev.S |-> SumSeq([t \in 1..(T1 + 1) |-> m.x[i][s][t] * XOcc(mod, b, X, F, B, s - 1, t - 1)])]) +
                      SumSeq([s \in 1..(ev.S + 1) |-> SumSeq([t \in 1..ev.T |-> m.y[i][s][t] * YOcc(b, Y, F, B, s - 1, t - 1)])]) IN
          Cl(Abs(m.d[i] - 1000 * want) <= 2 + 20 * tot, "Breakdown") \cup
          Cl(gradOk(m.gx[i], m.gy[i], m.a), "PartGradient") : j \in 1..Len(ev.parts)})
RecF(ev) == Cl(ev.shape = 1, "Shape") \cup UNION {OneF(ev, i) : i \in 1..Len(ev.e)}
TFailing(ev, s) == IF ev.op = "rec" THEN RecF(ev) ELSE {"UnknownOp"}
TStep(ev, s) == s
=============================================================================
