--------------------------------- MODULE T12 ---------------------------------
(* Recorded runs of intersect_dense and of the dense-score constructors.     *)
EXTENDS TraceBase, K2Dense
Cl(b, name) == IF b THEN {} ELSE {name}
RowsOf(ev, i) == SegRows(ev.lp, ev.C, ev.segs[ev.map[i] + 1])
AOff(S, i) == SumSeq([j \in 1..(i - 1) |-> Len(S[j].a)])
\* rows before utterance q in the score matrix
RowOff(ev, q) == SumSeq([j \in 1..q |-> Len(SegRows(ev.lp, ev.C, ev.segs[j]))])
Sl(x, o, n) == SubSeq(x, o + 1, o + n)
Loc(ev, i, ids) == [j \in 1..Len(ids) |-> ids[j] - AOff(ev.g, i)]

ElemF(ev, i) ==
  LET G == ev.g[i]  O == ev.f[i]  b == RowsOf(ev, i)  o == AOff(ev.f, i)
      ids == Loc(ev, i, Sl(ev.ids, o, Len(O.a)))  fr == Sl(ev.fr, o, Len(O.a))  sf == Sl(ev.sf, o, Len(O.a)) IN
  IF ~WellFormed(O) THEN {"Format"}
  ELSE IF G.n = 0 THEN Cl(O.n = 0, "EmptyGraph")
  ELSE IF ~Origin(G, b, O, ids, fr) THEN {"ArcMap"}
  ELSE Cl(OneToOne(ids, fr), "DuplicateArc") \cup
       Cl(\A j \in 1..Len(O.a) : SameArc(G, b, O, ids, fr, j), "LabelOrScore") \cup
       Cl(StatesOk(G, b, O, ids, fr), "FrameIsDepth") \cup
       Cl(\A j \in 1..Len(O.a) : sf[j] = RowOff(ev, ev.map[i]) + fr[j], "SeqFrame")
\* everything of the lattice with its distance to the best path, and what was kept
Parts(ev) ==
  [i \in 1..Len(ev.g) |->
     LET G == ev.g[i] IN
     IF G.n = 0 THEN [A |-> {}, S |-> {}] ELSE
     LET b == RowsOf(ev, i)  f == FwdD(G, b)  w == BwdD(G, b)  best == f[Len(b) + 1][Final(G)] IN
     [A |-> ArcDef(G, b, f, w, best), S |-> StateDef(G, b, f, w, best)]]
KeptA(ev, i) == LET o == AOff(ev.f, i) IN OArcs(Loc(ev, i, Sl(ev.ids, o, Len(ev.f[i].a))), Sl(ev.fr, o, Len(ev.f[i].a)))
In2(d, beam2) == 2 * d < beam2
NStates(ev, Ps, t) == SumSeq([i \in 1..Len(Ps) |-> Cardinality({x \in Ps[i].S : In2(x[3], t)})])
LeaveCount(ev, Ps, t) ==      \* arcs of the graphs that leave the states kept: what the limit speaks about
  SumSeq([i \in 1..Len(Ps) |-> FoldSet(LAMBDA x, c : IF In2(x[3], t) THEN c + ev.g[i].c[x[2] + 1] ELSE c, 0, Ps[i].S)])
KeepF(ev) ==
  LET Ps == Parts(ev)
      fits == NStates(ev, Ps, ev.beam2) <= ev.maxs /\ LeaveCount(ev, Ps, ev.beam2) <= ev.maxa
      Exact(t) == \A i \in 1..Len(Ps) :
         /\ {<<x[1], x[2]>> : x \in {y \in Ps[i].A : In2(y[3], t)}} = KeptA(ev, i)
         /\ Cardinality({x \in Ps[i].S : In2(x[3], t)}) = ev.f[i].n
      cands == {2 * x[3] + 1 : x \in UNION {Ps[i].A : i \in 1..Len(Ps)} \cup UNION {Ps[i].S : i \in 1..Len(Ps)}} IN
  IF fits THEN Cl(Exact(ev.beam2), "WithinBeam")
  ELSE Cl(\E t \in {c \in cands : c <= ev.beam2} : Exact(t) /\ NStates(ev, Ps, t) <= ev.maxs /\ LeaveCount(ev, Ps, t) <= ev.maxa, "ReducedBeam")
AttrF(ev) ==
  Cl(Len(ev.ids) = AOff(ev.f, Len(ev.f) + 1) /\ Len(ev.rg) = Len(ev.ids) /\ \A j \in 1..Len(ev.ids) : ev.rg[j] = [x \in 1..(ev.ids[j] % 3) |-> ev.ids[j]], "Attributes") \cup
  Cl(ev.nt = 1, "NonTensorAttributes")
GradF(ev) ==
  IF ev.grad = 0 THEN {} ELSE
  LET N == Len(ev.w)
      ga == [k \in 1..Len(ev.ga) |-> SumSeq([j \in 1..N |-> IF ev.ids[j] = k THEN ev.w[j] ELSE 0])]
      El(j) == CHOOSE i \in 1..Len(ev.f) : AOff(ev.f, i) < j /\ j <= AOff(ev.f, i + 1)
      seg(j) == ev.segs[ev.map[El(j)] + 1]
      labs == FoldLeft(LAMBDA x, G : x \o [k \in 1..Len(G.a) |-> G.a[k][3]], <<>>, ev.g)
      cells == [j \in 1..N |-> <<seg(j)[1] + 1, seg(j)[2] + ev.fr[j] + 1, labs[ev.ids[j]] + 1>>]
      gb == [n \in 1..Len(ev.gb) |-> [t \in 1..Len(ev.gb[n]) |-> [c \in 1..ev.C |->
               SumSeq([j \in 1..N |-> IF cells[j] = <<n, t, c>> THEN ev.w[j] ELSE 0])]]] IN
  Cl(ev.rga = 0 \/ ev.ga = ga, "GraphGradient") \cup Cl(ev.rgb = 0 \/ ev.gb = gb, "AcousticGradient")
InterF(ev) ==
  IF Len(ev.f) # Len(ev.g) \/ Len(ev.ids) # AOff(ev.f, Len(ev.f) + 1) \/ Len(ev.fr) # Len(ev.ids) \/ Len(ev.sf) # Len(ev.ids) THEN {"Shape"}
  ELSE LET E == UNION {ElemF(ev, i) : i \in 1..Len(ev.g)} IN
       IF "Format" \in E \/ "ArcMap" \in E THEN E ELSE E \cup KeepF(ev) \cup AttrF(ev) \cup GradF(ev)

\* DenseFsaVec: rows and durations; its conversion to automata
DenseF(ev) ==
  LET rows == [i \in 1..Len(ev.segs) |-> SegRows(ev.lp, ev.C, ev.segs[i])]
      Auto(b) == [n |-> Len(b) + 1,
                  a |-> FoldLeft(LAMBDA x, t : x \o (IF t = Len(b) THEN <<<<t - 1, t, -1, 0>>>>
                                                     ELSE [c \in 1..ev.C |-> <<t - 1, t, c - 1, b[t][c + 1]>>]), <<>>, [t \in 1..Len(b) |-> t])] IN
  Cl(ev.rows = FoldLeft(LAMBDA x, r : x \o r, <<>>, rows), "Rows") \cup
  Cl(ev.dur = [i \in 1..Len(rows) |-> Len(rows[i]) - 1], "Duration") \cup
  Cl(ev.dim0 = Len(ev.segs), "Count") \cup
  Cl(Len(ev.f) = Len(rows) /\ \A i \in 1..Len(rows) : ev.f[i].n = Auto(rows[i]).n /\
        {ev.f[i].a[k] : k \in 1..Len(ev.f[i].a)} = {Auto(rows[i]).a[k] : k \in 1..Len(Auto(rows[i]).a)} /\ Len(ev.f[i].a) = Len(Auto(rows[i]).a), "Automata")
\* sizes beyond 16 bits, where the result has a closed form
BigF(ev) ==
  LET n == ev.n  u == ev.w + ev.s
      T(i) == IF i < n \div 2 THEN 2 ELSE 1
      BTot(i) == T(i) * (u + (i % 2) + (IF i = ev.k THEN 7 ELSE 0)) IN
  CASE ev.what = "frames" ->      \* a loop taken in every frame, then the final arc
        Cl(ev.tots = <<n * u>>, "LongTotal") \cup Cl(ev.arcs = n + 1 /\ ev.same = 1, "LongPath") \cup Cl(ev.dim0 = 1, "Count")
    [] ev.what = "states" ->      \* only the best branch is within the beam
        Cl(ev.tots = <<u + 7>>, "WideTotal") \cup Cl(ev.arcs = 2 /\ ev.ids = <<ev.k - 1, n + ev.k - 1>> /\ ev.st = <<<<0, 1>>, <<1, 2>>>>, "WidePath") \cup Cl(ev.dim0 = 1, "Count")
    [] OTHER ->
        Cl(ev.dim0 = n, "Count") \cup Cl(ev.arcs = SumSeq([i \in 1..n |-> T(i - 1) + 1]), "ManyArcs") \cup
        Cl(ev.tots = [j \in 1..Len(ev.ask) |-> BTot(ev.ask[j])], "ManyTotals") \cup Cl(ev.sum = SumSeq([i \in 1..n |-> BTot(i - 1)]), "ManySum")
TFailing(ev, s) ==
  CASE ev.op = "intersect_dense" -> InterF(ev)
    [] ev.op = "dense" -> DenseF(ev)
    [] ev.op = "big" -> BigF(ev)
    [] OTHER -> {"UnknownOp"}
TStep(ev, s) == s
=============================================================================
