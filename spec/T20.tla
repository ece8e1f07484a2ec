--------------------------------- MODULE T20 ---------------------------------
(* Recorded histories of ragged operations. The abstract state is the sequence of nested lists made so far; every event names its  *)
(* operands by position, its integer arguments a and integer-list arguments v, and shows all views of its results and its maps.     *)
EXTENDS TraceBase, K2Ragged
Cl(b, name) == IF b THEN {} ELSE {name}
T20Init == <<>>
Flat(S) == CatAll(S)
One1(R) == [out |-> <<R>>, maps |-> <<>>]
WithMap(F(_), R) == [out |-> <<F(R)>>, maps |-> <<Values(F(Numbered(R)))>>]
MapsOf(ms) == [out |-> <<>>, maps |-> ms]
B(x) == IF x THEN 1 ELSE 0
Clip(n, x) == IF x < 0 THEN (IF x + n < 0 THEN 0 ELSE x + n) ELSE IF x > n THEN n ELSE x
\* python's a:b on a list of n; a missing bound is marked by flag 0
SliceLo(n, a) == IF a[1] = 1 THEN Clip(n, a[2]) ELSE 0
SliceHi(n, a) == LET h == IF a[3] = 1 THEN Clip(n, a[4]) ELSE n  q == SliceLo(n, a) IN IF h < q THEN q ELSE h
AsRow(S) == Rag(2, <<S>>)
Row1(R, i) == IF R.d = 2 THEN AsRow(R.v[i]) ELSE Rag(R.d - 1, R.v[i])
ZerosOf(S) == Zeros(S)
Same(A, Q) == A.d = Q.d /\ A.v = Q.v
LastTwo(R, kb, kl) == \* sublists kb of the last-but-one axis and elements kl kept (elements of dropped sublists are not in kl)
  LET R1 == WithValues(R, [i \in 1..Len(kl) |-> <<kl[i], Values(R)[i]>>])
      I == Items(R1, R.d - 2)
      row(x) == LET y == SelectSeq(x, LAMBDA e : e[1] = 1) IN [t \in 1..Len(y) |-> y[t][2]]
      new == [i \in 1..Len(I) |-> row(I[i])] IN
  Subset(Rag(R.d, Up(R, new, R.d - 2)), R.d - 2, kb)
CatMaps(Rs, ax) == Values(CatAxis(Sources(Rs), ax))
StackMaps(Rs, ax) == Values(StackAxis(Sources(Rs), ax))
OffsetsOf(R) == [k \in 1..R.d |-> IF k = 1 THEN [i \in 1..(Len(R.v) + 1) |-> i - 1]
                ELSE Scan([i \in 1..Len(R.v) |-> Len(Deep(R.v[i], k - 2))], 0)]
Exp20(ev, S) ==
  LET a == ev.a  v == ev.v  R == IF S = <<>> THEN EmptyR(2) ELSE S[1]  o == ev.op IN
  CASE o = "new" -> One1(FromViews([d |-> a[1], splits |-> SubSeq(v, 1, Len(v) - 1), values |-> v[Len(v)]]))
    [] o = "idx" -> LET F(X) == IndexAxis(X, a[1], v[1]) IN WithMap(F, R)
    [] o = "idxnomap" -> One1(IndexAxis(R, a[1], v[1]))
    [] o = "idxr" -> LET x == IndexRagged(R, S[2]) IN One1(IF a[1] = 1 THEN RemoveAxis(x, x.d - 2) ELSE x)
    [] o = "rmaxis" -> One1(RemoveAxis(R, a[1]))
    [] o = "rmlast" -> One1(RemoveLastAxis(R))
    [] o = "arange" -> One1(Arange(R, a[1], a[2], a[3]))
    [] o = "prefix" -> One1(Prefix(R, a[1]))
    [] o = "prefixes" -> [out |-> [i \in 1..Len(v[1]) |-> Prefix(R, v[1][i])], maps |-> <<>>]
    [] o = "split" -> [out |-> [i \in 1..Len(R.v) |-> Rag(R.d - 1, R.v[i])], maps |-> Append(OffsetsOf(R), [i \in 1..Len(R.v) |-> OffsetsOf(R)[R.d][i]])]
    [] o = "index0" -> One1(Rag(R.d - 1, R.v[a[1] + 1]))
    [] o = "getitem" -> One1(Row1(R, a[1] + 1))
    [] o = "slice" -> One1(Rag(R.d, SubSeq(R.v, SliceLo(Len(R.v), a) + 1, SliceHi(Len(R.v), a))))
    [] o = "addsuffix" -> One1(AddSuffix(R, v[1]))
    [] o = "addprefix" -> One1(AddPrefix(R, v[1]))
    [] o = "unsq" -> One1(Unsqueeze(R, a[1]))
    [] o = "unsqp" -> [out |-> [i \in 1..Len(S) |-> Unsqueeze(S[i], 0)], maps |-> <<>>]
    [] o = "layer" -> One1(Layer(R, a[1]))
    [] o = "decompose" -> [out |-> <<TopOf(R, a[1]), BottomOf(R, a[1])>>, maps |-> <<>>]
    [] o = "compose" -> One1(Compose(R, S[2]))
    [] o = "compose3" -> One1(Compose(R, Compose(S[2], S[3])))
    [] o = "offsets" -> MapsOf(Offsets(S))
    [] o = "mktrans" -> One1(MakeTransposable(R))
    [] o = "trans" -> (IF Transposable(R) THEN WithMap(Transpose, R) ELSE One1(EmptyR(1)))
    [] o = "cat" -> [out |-> <<CatAxis(S, a[1])>>, maps |-> <<CatMaps(S, a[1])>>]
    [] o = "catnomap" -> One1(CatAxis(S, a[1]))
    [] o = "stack" -> [out |-> <<StackAxis(S, a[1])>>, maps |-> <<StackMaps(S, a[1])>>]
    [] o = "catshape" -> [out |-> <<Zeros(CatAxis(S, a[1]))>>, maps |-> <<CatMaps(S, a[1])>>]
    [] o = "stackshape" -> [out |-> <<Zeros(StackAxis(S, a[1]))>>, maps |-> <<StackMaps(S, a[1])>>]
    [] o = "unstack" -> LET N == Unstack(Numbered(R), a[1], a[2] = 1) IN
                        [out |-> Unstack(R, a[1], a[2] = 1), maps |-> [i \in 1..Len(N) |-> Values(N[i])]]
    [] o = "unstackshape" -> LET N == Unstack(Numbered(R), a[1], a[2] = 1) IN
                        [out |-> [i \in 1..Len(N) |-> Zeros(N[i])], maps |-> [i \in 1..Len(N) |-> Values(N[i])]]
    [] o = "merge" -> [out |-> <<Merge(S, v[1])>>, maps |-> <<Values(Merge(Sources(S), v[1]))>>]
    [] o = "subset" -> [out |-> <<Subset(R, a[1], v[1])>>, maps |-> <<Values(Subset(Numbered(R), a[1], v[1])), New2Old(v[1]), Old2New(v[1])>>]
    [] o = "subset2" -> One1(LastTwo(R, v[1], v[2]))
    [] o \in {"rmempty", "rmempty0"} -> LET k == NonEmpty(R, a[1]) IN [out |-> <<Subset(R, a[1], k)>>, maps |-> <<New2Old(k)>>]
    [] o \in {"rmsome", "renum0"} -> One1(Subset(R, a[1], v[1]))
    [] o = "chsize" -> One1(ChangeSize(R, a[1], FALSE))
    [] o = "chsizep" -> One1(ChangeSize(R, a[1], TRUE))
    [] o = "cover" -> [out |-> <<Cover(S)>>, maps |-> [i \in 1..Len(S) |-> CoverMap(S[i], Cover(S))]]
    [] o = "leq" -> One1(FilterVals(R, LAMBDA x : x > a[1]))
    [] o = "eq" -> One1(FilterVals(R, LAMBDA x : x # a[1]))
    [] o = "equal" -> MapsOf(<<<<B(Same(R, S[2]))>>, <<B(Same(Zeros(R), Zeros(S[2])))>>>>)
    [] o = "regular" -> One1(Regular(a[1], a[2]))
    [] o = "trivial" -> One1(Regular(1, a[1]))
    [] o = "empty" -> One1(EmptyR(a[1]))
    [] o \in {"str", "copy", "show"} -> One1(R)
    [] o \in {"strshape", "shape"} -> One1(Zeros(R))
    [] o = "elem" -> MapsOf(<<Values(R), Values(Numbered(R))>>)
    [] o = "pad" -> MapsOf(PadRows(R, a[1] = 1, a[2], a[3] = 1))
    [] o = "lookup" -> One1(WithValues(R, LET x == Values(R) IN [i \in 1..Len(x) |-> IF x[i] = -1 THEN a[1] ELSE v[1][x[i] + 1]]))
    [] o = "setvalues" -> One1(WithValues(R, v[1]))
    [] OTHER -> One1(EmptyR(1))
Shown(ev, s) == Len(ev.out) = Len(s) /\ \A k \in 1..Len(s) : ev.out[k] = Views(s[k])
TFailing(ev, s) ==
  IF ev.op = "registers" THEN Cl(Shown(ev, s), "OperandsUnchanged")
  ELSE
  LET S == [k \in 1..Len(ev.src) |-> s[ev.src[k]]] IN
  IF ev.op = "refused" THEN Cl(ev.bad = 1, "RefusedValidInput")
  ELSE IF ev.op = "accepted" THEN Cl(ev.bad = 0, "AcceptedInvalidInput")
  ELSE IF ~(\A k \in 1..Len(ev.out) : WellFormedViews(ev.out[k])) THEN {"WellFormed"}
  ELSE
  LET O == [k \in 1..Len(ev.out) |-> FromViews(ev.out[k])] IN
  Cl(\A k \in 1..Len(O) : ev.out[k] = Views(O[k]), "ViewsAgree") \cup
  (IF ev.op = "decr"
   THEN LET R == S[1]  m == ev.maps[1] IN
        Cl(IsPermOf(m, Len(R.v)) /\ O = <<IndexAxis(R, 0, m)>> /\ \A i \in 1..(Len(m) - 1) : Len(O[1].v[i]) >= Len(O[1].v[i + 1]), "DecreasingSize")
   ELSE LET X == Exp20(ev, S) IN
        Cl(Len(O) = Len(X.out) /\ \A k \in 1..Len(O) : O[k].d = X.out[k].d, ev.op \o ":Axes") \cup
        (IF Len(O) = Len(X.out) /\ (\A k \in 1..Len(O) : O[k].d = X.out[k].d) THEN Cl(\A k \in 1..Len(O) : O[k].v = X.out[k].v, ev.op \o ":Result") ELSE {}) \cup
        Cl(ev.maps = X.maps, ev.op \o ":Map") \cup
        \* the python list and the type
        (IF "list" \in DOMAIN ev THEN Cl(\A k \in 1..Len(O) : ev.list[k] = O[k].v, ev.op \o ":List") \cup Cl(\A k \in 1..Len(ev.dt) : ev.dt[k] = ev.dt0, ev.op \o ":Type") ELSE {}))
TStep(ev, s) == IF ev.op \in {"registers", "refused", "accepted"} \/ ~(\A k \in 1..Len(ev.out) : WellFormedViews(ev.out[k])) THEN s
                ELSE s \o [k \in 1..Len(ev.out) |-> FromViews(ev.out[k])]
=============================================================================
