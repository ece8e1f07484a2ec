--------------------------------- MODULE T30 ---------------------------------
(* Recorded offline decoding with the C++ library.                            *)
EXTENDS TraceBase, K2Decode
Cl(b, name) == IF b THEN {} ELSE {name}
P13 == INSTANCE R13
DN == INSTANCE K2Dense
Base(rows, i) == SumSeq([q \in 1..(i - 1) |-> rows[q]])
Per(n, F(_)) == UNION {F(i) : i \in 1..n}
\* output of the best path of each lattice
BestF(ev) ==
  LET one(i) == LET L == ev.lat[i]  B == BestPaths(L.f) IN
        Cl(IF B = {} THEN ev.out[i] = <<>> \/ \E p \in Paths(L.f) : OutOfPath(L, p) = ev.out[i] ELSE \E p \in B : OutOfPath(L, p) = ev.out[i], "BestOutput") IN
  Cl(ev.same = 1, "LatticeUnchanged") \cup
  IF Len(ev.out) # Len(ev.lat) THEN {"Grouping"} ELSE Per(Len(ev.lat), one)
TextsF(ev) ==
  Cl(Len(ev.out) = Len(ev.lat) /\ \A i \in 1..Len(ev.out) : ev.out[i] = Pos(Cat(ev.lat[i].x)), "Texts") \cup Cl(ev.same = 1, "LatticeUnchanged")
\* the path as a linear automaton: labels, outputs, scores
IsCopyOf(L, e, p, scores) ==
  /\ Len(e.o.a) = Len(p) /\ Len(e.x) = Len(p)
  /\ \A k \in 1..Len(p) : e.o.a[k][3] = Lab(L.f, p[k]) /\ e.x[k] = L.x[p[k]] /\ e.o.a[k][4] = (IF scores THEN Wt(L.f, p[k]) ELSE 0)
MaxF(ev) ==      \* GetBestPaths, use_max
  LET one(i) == LET L == ev.lat[i]  B == BestPaths(L.f)  e == ev.entries[i] IN
        Cl(IF B = {} THEN ChainW(e.o) = NegInf \/ e.o.a = <<>> ELSE Linear1(e.o) /\ \E p \in B : IsCopyOf(L, e, p, TRUE), "BestPath") IN
  Cl(ev.same = 1, "LatticeUnchanged") \cup
  IF Len(ev.entries) # Len(ev.lat) THEN {"Grouping"} ELSE Per(Len(ev.lat), one)
NbestF(ev) ==
  LET one(i) ==
        LET L == ev.lat[i]  n == ev.rows[i]  b == Base(ev.rows, i)
            es == [j \in 1..n |-> ev.entries[b + j]]
            P == Paths(L.f)
            words == [j \in 1..n |-> Pos(Cat(es[j].x))] IN
        Cl(\A j \in 1..n : Linear1(es[j].o), "Linear") \cup
        Cl(\A j \in 1..n : \E p \in P : IsCopyOf(L, es[j], p, FALSE), "NotAPath") \cup
        Cl(Distinct(words), "Distinct") \cup
        Cl(SetOf(words) = {OutOfPath(L, ev.sampled[i][q]) : q \in 1..Len(ev.sampled[i])}, "AllSampled") IN
  Cl(ev.same = 1, "LatticeUnchanged") \cup
  IF Len(ev.rows) # Len(ev.lat) \/ SumSeq(ev.rows) # Len(ev.entries) THEN {"Grouping"} ELSE Per(Len(ev.lat), one)
\* scored with the lattice: the best path with the same outputs; its language-model scores are those of its arcs
MeetF(ev) ==
  LET one(i) ==
        LET L == ev.lat[i]  b == Base(ev.rows, i)
            ent(j) == LET w == Pos(Cat(ev.entries[b + j].x))  r == ev.res[b + j]  best == BestOut(L, w)
                          B == {p \in Paths(L.f) : OutOfPath(L, p) = w /\ PW(L.f, p) = best} IN
              IF best = NegInf THEN {} ELSE
              Cl(Linear1(r.o), "Linear") \cup
              Cl(ChainW(r.o) = best, "BestScore") \cup
              Cl(\E p \in B : Pos(ChainLabs(r.o)) = InOfPath(L, p) /\ Pos(Cat(r.x)) = w /\
                              (ev.haslm = 1 => ev.lm[b + j] = SumSeq([q \in 1..Len(p) |-> L.lm[p[q]]]) /\ ev.am[b + j] = best - ev.lm[b + j]), "Path") IN
        Per(ev.rows[i], ent) IN
  IF Len(ev.res) # Len(ev.entries) \/ (ev.haslm = 1 /\ (Len(ev.lm) # Len(ev.res) \/ Len(ev.am) # Len(ev.res))) THEN {"Grouping"} ELSE Per(Len(ev.lat), one)
\* the sampled outputs with the largest total
SampledBestF(ev) ==
  LET one(i) ==
        LET L == ev.lat[i]  b == Base(ev.rows, i)
            C == {ev.entries[b + j] : j \in 1..ev.rows[i]}
            tot(e) == SumOut(L, Pos(Cat(e.x)))
            best == {e \in C : \A d \in C : tot(d) <= tot(e)} IN
        IF C = {} THEN Cl(ev.got[i].o.a = <<>>, "NoPath") ELSE Cl(ev.got[i] \in best, "LargestTotal") IN
  Cl(ev.same = 1, "LatticeUnchanged") \cup
  IF Len(ev.got) # Len(ev.lat) THEN {"Grouping"} ELSE Per(Len(ev.lat), one)
\* every path of the lattice with every way the language model accepts its outputs; acoustic scores times mul
WholeF(ev) ==
  LET one(i) ==
        LET L == ev.lat[i]  R == ev.out[i]
            lm(M, p) == SumSeq([q \in 1..Len(p) |-> M.lm[p[q]]])
            want == UNION {{<<InOfPath(L, p), OutOfPath(L, p), ev.mul * (PW(L.f, p) - lm(L, p)), g>> : g \in GWeights(ev.G, OutOfPath(L, p))}
                           : p \in {q \in Paths(L.f) : PW(L.f, q) # NegInf}}
            got == {<<InOfPath(R, p), OutOfPath(R, p), PW(R.f, p) - lm(R, p), lm(R, p)>> : p \in {q \in Paths(R.f) : PW(R.f, q) # NegInf}} IN
        IF ~ValidFsa(R.f) \/ ~(\A k \in 1..NArcs(R.f) : Dst(R.f, k) > Src(R.f, k)) THEN {"TopSorted"}
        ELSE Cl(got = want, "Scores") \cup Cl(R.f.n = 0 \/ R.f.a = <<>> \/ Useful(R.f) = States(R.f), "Connected") IN
  Cl(ev.gsame = 1, "LmUnchanged") \cup
  IF Len(ev.out) # Len(ev.lat) THEN {"Grouping"} ELSE Per(Len(ev.lat), one)
DenseF(ev) ==
  LET R == [i \in 1..Len(ev.segs) |-> DN!SegRows(ev.lp, ev.C, ev.segs[i])] IN
  Cl(ev.rows = Cat(R), "Rows") \cup
  Cl(ev.rs = [i \in 1..(Len(R) + 1) |-> SumSeq([j \in 1..(i - 1) |-> Len(R[j])])], "RowSplits")
TFailing(ev, s) ==
  CASE ev.op = "lattice" -> P13!PrunedF(ev) \cup Cl(ev.same = 1, "GraphUnchanged")
    [] ev.op = "bestpath" -> BestF(ev)
    [] ev.op = "texts" -> TextsF(ev)
    [] ev.op = "max" -> MaxF(ev)
    [] ev.op = "nbest" -> NbestF(ev)
    [] ev.op = "meet" -> MeetF(ev)
    [] ev.op = "bestpaths" -> SampledBestF(ev)
    [] ev.op = "whole" -> WholeF(ev)
    [] ev.op = "dense" -> DenseF(ev)
    [] ev.op = "supseg" -> Cl(ev.out = [i \in 1..Len(ev.seq) |-> <<ev.seq[i], ev.start[i] \div ev.ss, ev.num[i] \div ev.ss>>], "Segments")
    [] OTHER -> {"UnknownOp"}
TStep(ev, s) == s
=============================================================================
