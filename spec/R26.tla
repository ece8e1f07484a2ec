--------------------------------- MODULE R26 ---------------------------------
(* Recorded n-best lists.                                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, K2Nbest
Cl(b, name) == IF b THEN {} ELSE {name}
Labels1(O) == [k \in 1..Len(O.a) |-> O.a[k][3]]
Tot1(O) == IF O.a = <<>> \/ \E k \in 1..Len(O.a) : O.a[k][4] = NegInf THEN NegInf ELSE SumSeq([k \in 1..Len(O.a) |-> O.a[k][4]])
\* position of entry j of utterance i among all entries
Base(rows, i) == SumSeq([q \in 1..(i - 1) |-> rows[q]])
\* ---- from_lattice
BuiltF(ev) ==
  LET one(i) ==
        LET L == ev.lat[i]  n == ev.rows[i]  b == Base(ev.rows, i)
            es == [j \in 1..n |-> ev.entries[b + j]]
            words == [j \in 1..n |-> OutOfPath(L, es[j].path)]
            all == {OutOfPath(L, ev.sampled[i][q]) : q \in 1..Len(ev.sampled[i])} IN
        IF \E j \in 1..n : ~IsRoute(L.f, es[j].path) THEN {"NotAPath"}
        ELSE
          Cl(Distinct(words), "Distinct") \cup
          Cl(SetOf(words) = all, "AllSampled") \cup
          Cl((\A j \in 1..n : \E q \in 1..Len(ev.sampled[i]) : ev.sampled[i][q] = es[j].path), "Sampled") \cup
          UNION {Cl(LinearForm(es[j].o) /\ Len(es[j].o.a) = Len(es[j].path), "Linear") : j \in 1..n} \cup
          UNION {Cl(Len(es[j].o.a) = Len(es[j].path) =>
                      \A k \in 1..Len(es[j].path) : es[j].o.a[k][3] = Lab(L.f, es[j].path[k]) /\ es[j].o.a[k][4] = Wt(L.f, es[j].path[k]), "Arcs") : j \in 1..n} \cup
          UNION {Cl(es[j].x = [k \in 1..Len(es[j].path) |-> L.x[es[j].path[k]]], "Aux") : j \in 1..n} \cup
          (IF ev.grad = 0 THEN {} ELSE
             Cl(\A k \in 1..NArcs(L.f) : ev.g[i][k] = SumSeq([j \in 1..n |-> ev.w[b + j] * Cardinality({q \in 1..Len(es[j].path) : es[j].path[q] = k})]), "Gradient")) IN
  Cl(Len(ev.rows) = Len(ev.lat), "Grouping") \cup
  Cl(SumSeq(ev.rows) = Len(ev.entries), "Grouping") \cup
  (IF Len(ev.rows) # Len(ev.lat) \/ SumSeq(ev.rows) # Len(ev.entries) THEN {} ELSE UNION {one(i) : i \in 1..Len(ev.lat)}) \cup
  Cl(ev.same = 1, "LatticeUnchanged")
\* ---- total_scores: rows of scores
TotalsF(ev) ==
  Cl(Len(ev.tot) = Len(ev.rows) /\ \A i \in 1..Len(ev.rows) : Len(ev.tot[i]) = ev.rows[i], "Grouping") \cup
  (IF Len(ev.tot) = Len(ev.rows) /\ \A i \in 1..Len(ev.rows) : Len(ev.tot[i]) = ev.rows[i]
   THEN Cl(\A i \in 1..Len(ev.rows) : \A j \in 1..ev.rows[i] : ev.tot[i][j] = Tot1(ev.list[Base(ev.rows, i) + j].o), "Total") ELSE {})
\* ---- top_k
TopF(ev) ==
  IF \E i \in 1..Len(ev.rows) : ev.rows[i] = 0 THEN Cl(ev.refused = 1, "EmptyRefused")
  ELSE IF ev.refused = 1 THEN {"Refused"}
  ELSE
    Cl(Len(ev.trows) = Len(ev.rows) /\ \A i \in 1..Len(ev.trows) : ev.trows[i] = ev.k, "Regular") \cup
    (IF ~(Len(ev.trows) = Len(ev.rows) /\ \A i \in 1..Len(ev.trows) : ev.trows[i] = ev.k) THEN {} ELSE
     UNION {LET b == Base(ev.rows, i)  n == ev.rows[i]
                ids == [j \in 1..ev.k |-> ev.top[(i - 1) * ev.k + j].id - b]
                tot == [j \in 1..n |-> Tot1(ev.list[b + j].o)] IN
            Cl(TopK(tot, ev.k, ids), "Best") \cup
            Cl((\A j \in 1..ev.k : ids[j] \in 1..n => ev.top[(i - 1) * ev.k + j].o = ev.list[b + ids[j]].o /\ ev.top[(i - 1) * ev.k + j].x = ev.list[b + ids[j]].x), "Entry")
            : i \in 1..Len(ev.rows)})
\* ---- Levenshtein graphs of the outputs
LevF(ev) ==
  Cl(Len(ev.words) = Len(ev.list) /\ \A j \in 1..Len(ev.words) : ev.words[j] = Pos(Cat(ev.list[j].x)), "Words") \cup
  Cl(ev.graphs = 1, "Graphs")
\* ---- intersect
MeetF(ev) ==
  LET one(i, j) ==
        LET L == ev.lat[i]  e == ev.entries[Base(ev.rows, i) + j].o  r == ev.res[Base(ev.rows, i) + j]
            labs == Pos(Labels1(e))  tot == Tot1(e)
            P == {p \in Paths(L.f) : InOfPath(L, p) = labs}
            best == BestFor(L.f, labs) IN
        IF best = NegInf \/ tot = NegInf THEN Cl(r.o.a = <<>> \/ Tot1(r.o) = NegInf, "NoPath")
        ELSE
          Cl(r.o.a # <<>> /\ LinearForm(r.o), "Linear") \cup
          Cl(Pos(Labels1(r.o)) = labs /\ Labels1(r.o) = labs \o <<-1>>, "Labels") \cup
          Cl(Tot1(r.o) = tot + best, "BestScore") \cup
          Cl(ev.aux = 1 => \E p \in P : PW(L.f, p) = best /\ OutOfPath(L, p) = Pos(Cat(r.x)), "Aux") IN
  Cl(ev.rrows = ev.rows /\ Len(ev.res) = Len(ev.entries), "Grouping") \cup
  (IF ev.rrows = ev.rows /\ Len(ev.res) = Len(ev.entries) THEN UNION {UNION {one(i, j) : j \in 1..ev.rows[i]} : i \in 1..Len(ev.rows)} ELSE {}) \cup
  Cl(ev.same = 1, "LatticeUnchanged")
\* ---- whole_lattice_rescoring
RescoreF(ev) ==
  LET one(i) ==
        LET L == ev.lat[i]  R == ev.out[i]
            W(p) == IF PW(L.f, p) = NegInf THEN NegInf ELSE PW(L.f, p) - SumSeq([q \in 1..Len(p) |-> L.lm[p[q]]])
            src == Paths(L.f)
            key(M, p) == <<InOfPath(M, p), OutOfPath(M, p)>>
            pairs == {key(L, p) : p \in src}
            old(q) == Greatest({W(p) : p \in {u \in src : key(L, u) = q}})
            g(q) == BestPlain(ev.G, q[2])
            want == {<<q, Plus(old(q), g(q))>> : q \in {u \in pairs : g(u) # NegInf /\ old(u) # NegInf}}
            dst == Paths(R.f)
            got == {<<q, Greatest({PW(R.f, p) : p \in {u \in dst : key(R, u) = q}})>> : q \in {key(R, p) : p \in {u \in dst : PW(R.f, u) # NegInf}}} IN
        IF ~ValidFsa(R.f) \/ ~(\A k \in 1..NArcs(R.f) : Dst(R.f, k) > Src(R.f, k)) THEN {"TopSorted"}
        ELSE Cl(got = want, "Scores") \cup
             Cl(R.f.n = 0 \/ R.f.a = <<>> \/ Useful(R.f) = States(R.f), "Connected") IN
  Cl(Len(ev.out) = Len(ev.lat), "Grouping") \cup (IF Len(ev.out) = Len(ev.lat) THEN UNION {one(i) : i \in 1..Len(ev.lat)} ELSE {}) \cup
  Cl(ev.gsame = 1, "LmUnchanged")
\* ---- generate_nbest_list
ListF(ev) ==
  LET one(i) ==
        LET L == ev.lat[i]  n == ev.rows[i]  b == Base(ev.rows, i)
            es == [j \in 1..n |-> ev.entries[b + j].o]
            seqs == [j \in 1..n |-> Pos(Labels1(es[j]))]
            all == {OutOfPath(L, ev.sampled[i][q]) : q \in 1..Len(ev.sampled[i])} IN
        Cl(Distinct(seqs), "Distinct") \cup Cl(SetOf(seqs) = all, "AllSampled") \cup
        Cl(\A j \in 1..n : LinearForm(es[j]) /\ Labels1(es[j]) = seqs[j] \o <<-1>> /\ Tot1(es[j]) = 0, "Linear") IN
  Cl(Len(ev.rows) = Len(ev.lat) /\ SumSeq(ev.rows) = Len(ev.entries), "Grouping") \cup
  (IF Len(ev.rows) = Len(ev.lat) /\ SumSeq(ev.rows) = Len(ev.entries) THEN UNION {one(i) : i \in 1..Len(ev.lat)} ELSE {}) \cup
  Cl(ev.same = 1, "LatticeUnchanged")
TFailing(ev, s) ==
  CASE ev.op = "built" -> BuiltF(ev)
    [] ev.op = "totals" -> TotalsF(ev)
    [] ev.op = "top" -> TopF(ev)
    [] ev.op = "lev" -> LevF(ev)
    [] ev.op = "meet" -> MeetF(ev)
    [] ev.op = "rescore" -> RescoreF(ev)
    [] ev.op = "list" -> ListF(ev)
    [] ev.op = "Raised" -> {"NoRaise"}
    [] ev.op = "Died" -> {"NoCrash"}
    [] ev.op = "Hang" -> {"Terminates"}
    [] OTHER -> {"UnknownEvent"}
TStep(ev, s) == s
=============================================================================
