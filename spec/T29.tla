--------------------------------- MODULE T29 ---------------------------------
(* Recorded histories of the C++ decoding library's automata: the same        *)
(* relations as for the Python front end, on a store of named objects.        *)
EXTENDS TraceBase, K2Store
Cl(b, name) == IF b THEN {} ELSE {name}
P03 == INSTANCE R03
P05 == INSTANCE R05
P10 == INSTANCE R10
P01 == INSTANCE R01
P15 == INSTANCE R15
P16 == INSTANCE R16
SC == INSTANCE K2Score
T29Init == <<>>
Shape(v) == (\A i \in 1..Len(v.attrs) : Len(v.attrs[i].v) = NumArcs(v.f))
FlagF(v) == LET have == {v.flags[i] : i \in 1..Len(v.flags)} IN P05!Diff(v.f, have)
ValF(v) == Cl(Shape(v), "AttributeLength") \cup FlagF(v)
Others(ev, s, X) == UNION {Cl(ValOf(ev.all, n) = s[n], "OtherObjectChanged") : n \in DOMAIN s \ X}
RwF(ev, v, o) ==
  P03!TFailing([op |-> ev.rel, f |-> v.f, vec |-> v.vec, mayfail |-> 0, attrs |-> SelectSeq(v.attrs, LAMBDA a : a.name # "aux_labels" \/ ev.rel \notin {"invert", "invert_ragged"}),
                rag |-> IF ev.rel = "invert_ragged" THEN <<Attr(v.attrs, "aux_labels").v>> ELSE <<>>,
                aux |-> IF ev.rel = "invert" THEN Attr(v.attrs, "aux_labels").v ELSE <<>>,
                out |-> [f |-> o.f, vec |-> o.vec, same |-> 1, m |-> ev.m, attrs |-> o.attrs, aux |-> ev.aux]], 0)
OpF(ev, s) ==
  LET o == ValOf(ev.all, ev.out) IN
  CASE ev.op = "new" -> Cl(o.f = ev.v.f /\ o.vec = ev.v.vec /\ SetOf(o.attrs) = SetOf(ev.v.attrs), "Constructed")
    [] ev.op = "load" -> Cl(o.f = ev.v.f /\ o.vec = ev.v.vec /\ SetOf(o.attrs) = SetOf(ev.v.attrs), "Loaded")
    [] ev.op = "alias" -> Cl(o = s[ev.on], "Copied")
    [] ev.op = "rewrite" -> IF "err" \in DOMAIN ev
                            THEN Cl(ev.mayfail = 1, "Raised:" \o ev.err) \cup Cl(o = s[ev.on], "FailedOperationChangedObject")
                            ELSE Cl(ev.mayfail = 0, "CyclicInputAccepted") \cup (IF ev.mayfail = 0 THEN RwF(ev, s[ev.on], o) ELSE {})
    [] ev.op = "shortest" -> LET v == s[ev.on] IN
                            P10!TFailing([op |-> "best", f |-> v.f, f2 |-> v.f, attrs |-> v.attrs,
                                          out |-> [f |-> o.f, attrs |-> o.attrs, grad |-> <<>>]], 0)
    [] ev.op = "intersect" -> LET a == s[ev.on]  b == s[ev.on2]  common == Names(a.attrs) \cap Names(b.attrs)
                                  own(x) == SelectSeq(x, LAMBDA y : y.name \notin common) IN
                            P01!TFailing([op |-> "intersect_device", a |-> [f |-> a.f], b |-> [f |-> b.f], ai |-> ev.ai, bi |-> [i \in 1..Len(b.f) |-> i - 1],
                                          special |-> 0, vec |-> 1, lang |-> ev.lang, mustfail |-> 0, mayfail |-> 0,
                                          out |-> [f |-> o.f, vec |-> o.vec, ma |-> ev.ma, mb |-> ev.mb, same |-> 1]], 0) \cup
                            AttrClauses(own(a.attrs), o.attrs, ev.ma, NumArcs(a.f)) \cup AttrClauses(own(b.attrs), o.attrs, ev.mb, NumArcs(b.f)) \cup
                            Cl(Names(o.attrs) = Names(a.attrs) \cup Names(b.attrs), "AttributeNames")
    [] ev.op = "linear" -> LET v == s[ev.on] IN
                            Cl(o.vec = v.vec /\ Len(o.f) = Len(v.f) /\ \A i \in 1..Len(v.f) : IsLoopLinear(o.f[i], WordsOf(v.f[i])), "LinearWithSelfLoops")
    [] ev.op = "set" -> LET v == s[ev.on] IN Cl(o.f = v.f /\ SetOf(o.attrs) = Put(v.attrs, ev.v), "SetAttribute")
    [] ev.op = "scale" -> LET v == s[ev.on]  x == Attr(v.attrs, ev.name) IN
                            Cl(o.f = v.f /\ SetOf(o.attrs) = Put(v.attrs, [x EXCEPT !.v = ScaleSeq(ev.k, @)]), "ScaleAttribute")
    [] ev.op = "scalescores" -> LET v == s[ev.on] IN
                            Cl(o.f = [i \in 1..Len(v.f) |-> ScaleScores(ev.k, v.f[i])] /\ o.attrs = v.attrs, "ScaleScores") \cup
                            UNION {Cl(ValOf(ev.all, n).f = o.f, "SharedScores") : n \in {ev.shared[i] : i \in 1..Len(ev.shared)}}
    [] ev.op = "get" -> Cl(ev.got = IF ev.name = "labels" THEN [k \in 1..NumArcs(o.f) |-> Flat(o.f)[k][3]]
                                    ELSE IF ev.name = "scores" THEN [k \in 1..NumArcs(o.f) |-> Flat(o.f)[k][4]] ELSE Attr(o.attrs, ev.name).v, "GetAttribute") \cup Cl(o = s[ev.on], "Unchanged")
    [] OTHER -> {"UnknownOp"}
StoreF(ev, s) ==
  Cl(Bound(ev.all) = DOMAIN s \cup {ev.out}, "Names") \cup
  LET o == ValOf(ev.all, ev.out) IN
  Others(ev, s, {ev.out} \cup (IF ev.op = "scalescores" THEN {ev.shared[i] : i \in 1..Len(ev.shared)} ELSE {})) \cup
  (IF Shape(o) THEN ValF(o) \cup OpF(ev, s) ELSE {"AttributeLength"})
PowI(x, n) == FoldLeft(LAMBDA m, i : m * x, 1, [i \in 1..n |-> i])
\* ---- stand-alone calls
Tots(ev) ==
  LET want == [i \in 1..Len(ev.f) |-> SC!Tot(ev.f[i], ev.mode)] IN Cl(ev.out = want, "TotalScores") \cup Cl(ev.out32 = want, "TotalScoresFloat")
\* hypotheses: probabilities of equal sequences are added; logs of integers
HypF(ev) ==
  LET K == {ev.in[i].ys : i \in 1..Len(ev.in)}
      sum(y) == FoldLeft(LAMBDA m, h : IF h.ys = y THEN m + h.p ELSE m, 0, ev.in) IN
  Cl({ev.out[i].ys : i \in 1..Len(ev.out)} = K /\ Len(ev.out) = Cardinality(K), "Hypotheses") \cup
  Cl(\A i \in 1..Len(ev.out) : ev.out[i].ys \in K => ev.out[i].p = sum(ev.out[i].ys), "LogAdd") \cup
  Cl(ev.best \in K /\ (IF ev.norm = 0 THEN \A y \in K : sum(y) <= sum(ev.best)
      \* log(p)/m <= log(q)/n  iff  p^n <= q^m
      ELSE \A y \in K : PowI(sum(y), Len(ev.best)) <= PowI(sum(ev.best), Len(y))), "MostProbable")
SymF(ev) ==
  LET R == ev.rows
      dup == \E i, j \in 1..Len(R) : i # j /\ (R[i][1] = R[j][1] \/ R[i][2] = R[j][2]) IN
  IF "err" \in DOMAIN ev THEN Cl(dup, "Refused") ELSE
  Cl(~dup, "DuplicateAccepted") \cup
  (IF dup THEN {} ELSE
   Cl(\A i \in 1..Len(ev.ids) : ev.byid[i] = IF \E k \in 1..Len(R) : R[k][2] = ev.ids[i] THEN R[CHOOSE k \in 1..Len(R) : R[k][2] = ev.ids[i]][1] ELSE "<none>", "SymbolOfId") \cup
   Cl(\A i \in 1..Len(ev.syms) : ev.bysym[i] = IF \E k \in 1..Len(R) : R[k][1] = ev.syms[i] THEN R[CHOOSE k \in 1..Len(R) : R[k][1] = ev.syms[i]][2] ELSE -99, "IdOfSymbol") \cup
   Cl({ev.str[i] : i \in 1..Len(ev.str)} = {R[k] : k \in 1..Len(R)} /\ Len(ev.str) = Len(R), "ToString"))
WaveF(ev) ==
  IF "err" \in DOMAIN ev THEN Cl(ev.bad = 1, "Refused:" \o ev.err)
  ELSE Cl(ev.bad = 0, "MalformedAccepted") \cup Cl(ev.bad = 1 \/ (ev.got = ev.samples /\ ev.rate = ev.sr), "Samples")
IsStore(ev) == "all" \in DOMAIN ev
\* the store before an event is read off the previous event: the state only holds its number
Before(s) == IF s = <<>> THEN <<>> ELSE AsStore(Traces[tid][s[1]].all)
TFailing(ev, s) ==
  IF IsStore(ev) THEN StoreF(ev, Before(s))
  ELSE CASE ev.op \in {"open", "advance", "format"} -> P15!TFailing(ev, s)
    [] ev.op = "topo" -> P16!TopoF(ev)
    [] ev.op = "trivial" -> P16!TrivialF(ev)
    [] ev.op = "tot" -> Tots(ev)
    [] ev.op = "hyps" -> HypF(ev)
    [] ev.op = "symbols" -> SymF(ev)
    [] ev.op = "wave" -> WaveF(ev)
    [] OTHER -> {"UnknownOp"}
TStep(ev, s) ==
  IF IsStore(ev) THEN <<l>>
  ELSE IF ev.op \in {"open", "advance", "format"} THEN P15!TStep(ev, s) ELSE s
=============================================================================
