--------------------------------- MODULE R13 ---------------------------------
(* Recorded runs of intersect_dense_pruned.                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, K2Prune
Cl(b, name) == IF b THEN {} ELSE {name}
Gr(ev, i) == IF Len(ev.g) = 1 THEN ev.g[1] ELSE ev.g[i]
GOff(ev, i) == IF Len(ev.g) = 1 THEN 0 ELSE SumSeq([j \in 1..(i - 1) |-> Len(ev.g[j].a)])
AOff(S, i) == SumSeq([j \in 1..(i - 1) |-> Len(S[j].a)])
RowOff(ev, q) == SumSeq([j \in 1..q |-> Len(SegRows(ev.lp, ev.C, ev.segs[j]))])
Sl(x, o, n) == SubSeq(x, o + 1, o + n)
Prm(ev) == [D |-> (ev.sb2 * U) \div 2, mina |-> ev.mina, maxa |-> ev.maxa, online |-> 0, part |-> ev.part]
\* arcs of O as <<frame, graph arc>>; at a partial end the graph arc is not told: take the candidates by source and score
PArc(G, b, S, O, ids, fr, P, j) ==
  IF ids[j] > 0 THEN ids[j] ELSE 0
ElemF(ev, i) ==
  LET G == Gr(ev, i)  O == ev.f[i]  b == SegRows(ev.lp, ev.C, ev.segs[i])  o == AOff(ev.f, i)  T == Len(b)
      raw == Sl(ev.ids, o, Len(O.a))  fr == Sl(ev.fr, o, Len(O.a))  sf == Sl(ev.sf, o, Len(O.a))
      ids == [j \in 1..Len(raw) |-> IF raw[j] = 0 THEN 0 ELSE raw[j] - GOff(ev, i)] IN
  IF ~WellFormed(O) THEN {"Format"}
  ELSE IF G.n = 0 THEN Cl(O.n = 0, "EmptyGraph")
  ELSE
  LET S == Search(Prm(ev), G, b)
      ps == S[T + 1].ps
      J == 1..Len(O.a)
      full == {j \in J : ids[j] # 0} IN
  IF ~(\A j \in J : fr[j] \in 0..(T - 1) /\ (ids[j] \in 1..NArcs(G) \/ (ids[j] = 0 /\ ev.part = 1 /\ fr[j] = T - 1))) THEN {"ArcMap"}
  ELSE IF O.n < 2 THEN {"StartAndFinalState"}
  ELSE
  LET Im == {<<Src(O, j), <<fr[j], Src(G, ids[j])>>>> : j \in full} \cup
            {<<Dst(O, j), <<fr[j] + 1, Dst(G, ids[j])>>>> : j \in full} \cup {<<0, <<0, 0>>>>, <<Final(O), <<T, Final(G)>>>>}
      amb == Amb(S)
      A == Alive(G, b, S)
      must == Good(G, b, S, A, T, ev.ob2)
      may == UNION {{x \in Good(G, b, S, A, e, ev.ob2) : Min2(T, x[1] + 11) = e} : e \in {Min2(T, t + 11) : t \in 0..(T - 1)}}
      kept == {<<fr[j], ids[j]>> : j \in full}
      \* the ends of partial results: by frame-state and score, as bags
      StateOf(q) == CHOOSE x \in Im : x[1] = q
      pk == [j \in J |-> IF ids[j] = 0 /\ \E x \in Im : x[1] = Src(O, j) THEN <<StateOf(Src(O, j))[2], Wt(O, j)>> ELSE <<>>]
      Bag(X) == [x \in {<<<<T - 1, Src(G, y[2])>>, Wt(G, y[2])>> : y \in {z \in X : z[1] = T - 1}} |->
                   Cardinality({y \in X : y[1] = T - 1 /\ <<<<T - 1, Src(G, y[2])>>, Wt(G, y[2])>> = x})]
      Got == [x \in {pk[j] : j \in J \ full} |-> Cardinality({j \in J \ full : pk[j] = x})]
      body(X) == {x \in X : ~ps \/ x[1] < T - 1} IN
  Cl(Bijective(Im), "FrameIsDepth") \cup
  Cl(\A j \in full : SameArc(G, b, O, ids, fr, j), "LabelOrScore") \cup
  Cl(Cardinality(kept) = Cardinality(full), "DuplicateArc") \cup
  Cl(\A j \in J : sf[j] = RowOff(ev, i - 1) + fr[j], "SeqFrame") \cup
  Cl(\A j \in J \ full : Dst(O, j) = Final(O) /\ Lab(O, j) = -1, "PartialEnd") \cup
  \* every arc of an utterance is one its decoding graph allows with the scores of the frame; the rest is beam search
  (IF amb THEN {} ELSE
   Cl(ps \/ full = J, "PartialWithoutNeed") \cup
   Cl(body(must) \subseteq kept, "MissingArc") \cup
   Cl(kept \subseteq body(may), "ArcOutsideBeam") \cup
   Cl(ps => (\A x \in DOMAIN Bag(must) : x \in DOMAIN Got /\ Got[x] = Bag(must)[x]) /\ DOMAIN Got \subseteq DOMAIN Bag(may), "PartialResult") \cup
   Cl(T > 20 \/ O.n = Cardinality({x[1] : x \in Im} \cup {Src(O, j) : j \in J}), "SpareStates"))
AttrF(ev) ==
  Cl(Len(ev.rg) = Len(ev.ids) /\ \A j \in 1..Len(ev.ids) : ev.rg[j] = [x \in 1..(ev.ids[j] % 3) |-> ev.ids[j]], "Attributes") \cup
  Cl(ev.nt = 1, "NonTensorAttributes")
GradF(ev) ==
  IF ev.grad = 0 THEN {} ELSE
  LET N == Len(ev.w)
      ga == [k \in 1..Len(ev.ga) |-> SumSeq([j \in 1..N |-> IF ev.ids[j] = k THEN ev.w[j] ELSE 0])]
      El(j) == CHOOSE i \in 1..Len(ev.f) : AOff(ev.f, i) < j /\ j <= AOff(ev.f, i + 1)
      seg(j) == ev.segs[El(j)]
      labs == FoldLeft(LAMBDA x, G : x \o [k \in 1..Len(G.a) |-> G.a[k][3]], <<>>, ev.g)
      cells == [j \in 1..N |-> IF ev.ids[j] = 0 THEN <<0, 0, 0>> ELSE <<seg(j)[1] + 1, seg(j)[2] + ev.fr[j] + 1, labs[ev.ids[j]] + 1>>]
      gb == [n \in 1..Len(ev.gb) |-> [t \in 1..Len(ev.gb[n]) |-> [c \in 1..ev.C |->
               SumSeq([j \in 1..N |-> IF cells[j] = <<n, t, c>> THEN ev.w[j] ELSE 0])]]] IN
  Cl(ev.rga = 0 \/ ev.ga = ga, "GraphGradient") \cup Cl(ev.rgb = 0 \/ ev.gb = gb, "AcousticGradient")
PrunedF(ev) ==
  IF Len(ev.f) # Len(ev.segs) \/ Len(ev.ids) # AOff(ev.f, Len(ev.f) + 1) \/ Len(ev.fr) # Len(ev.ids) \/ Len(ev.sf) # Len(ev.ids) THEN {"Shape"}
  ELSE LET E == UNION {ElemF(ev, i) : i \in 1..Len(ev.segs)} IN
       IF "Format" \in E \/ "ArcMap" \in E \/ "StartAndFinalState" \in E THEN E ELSE E \cup AttrF(ev) \cup GradF(ev)
TFailing(ev, s) ==
  CASE ev.op = "pruned" -> PrunedF(ev)
    [] ev.op = "same" -> Cl(ev.out = 1, "Repeatable")
    [] OTHER -> {"UnknownOp"}
TStep(ev, s) == s
=============================================================================
