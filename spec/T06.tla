--------------------------------- MODULE T06 ---------------------------------
(* Recorded chains of operations.  The abstract state is the pool: for every *)
(* automaton object, its arcs and attributes.  Every operation is decided    *)
(* against the attribute rules; no operation may change anything in the pool *)
(* but the object it is documented to change.                                *)
EXTENDS TraceBase, K2Derive, K2Rewrite

Obj(n, v) == [name |-> n, kind |-> "obj", filler |-> 0, v |-> v]
Names(A) == {A[i].name : i \in 1..Len(A)}
Drop(A, S) == SelectSeq(A, LAMBDA a : a.name \notin S)
Set1(m) == [k \in 1..Len(m) |-> IF m[k] = <<>> THEN -1 ELSE m[k][1] - 1]
Extra(S, D, ok) == IF Names(D) \subseteq (Names(S) \cup ok) THEN {} ELSE {"InventedAttribute"}
AttrEq(A, B) == Len(A) = Len(B) /\ \A i \in 1..Len(A) : Has(B, A[i].name) /\
  LET b == Attr(B, A[i].name) IN b.kind = A[i].kind /\ b.filler = A[i].filler /\ b.v = A[i].v
SameRec(p, q) == p.vec = q.vec /\ p.f = q.f /\ AttrEq(p.attrs, q.attrs)
Idx(ids, n) == \A k \in 1..Len(ids) : \A j \in 1..Len(ids[k]) : ids[k][j] \in 1..n

Tensor(S, D, m, ok) == AttrClauses(S.attrs, D.attrs, m, NumArcs(S.f)) \cup Extra(S.attrs, D.attrs, ok)
Ids1(ev) == IF Len(ev.ids) # NumArcs(ev.out.f) \/ ~Idx(ev.ids, NumArcs(ev.x.f)) THEN {"ArcMap"} ELSE {}
FromIds(ev) ==
  IF Ids1(ev) # {} THEN Ids1(ev) ELSE
  Tensor(ev.x, ev.out, Set1(ev.ids), {}) \cup
  (IF \A k \in 1..Len(ev.ids) : ev.ids[k] # <<>> => Flat(ev.out.f)[k][4] = Flat(ev.x.f)[ev.ids[k][1]][4] THEN {} ELSE {"ScoreOfSource"})
Scores(O, w) == IF [k \in 1..NumArcs(O.f) |-> Flat(O.f)[k][4]] = w THEN {} ELSE {"Scores"}
RangeMap(S, sel) ==   \* the arcs of the elements in sel, in order
  FoldLeft(LAMBDA x, i : x \o [k \in 1..Len(S[i].a) |-> ArcOff(S, i) + k - 1], <<>>, sel)
Elements(ev, sel) ==
  (IF ev.out.f = [i \in 1..Len(sel) |-> ev.x.f[sel[i]]] THEN {} ELSE {"SelectedElements"}) \cup
  Tensor(ev.x, ev.out, RangeMap(ev.x.f, sel), {})

\* a and b: names both have
Conflict(A, B) == {n \in Names(A) \cap Names(B) : Attr(A, n).kind # "obj" /\ Attr(B, n).kind # "obj" /\ ~(Attr(A, n).kind = "float" /\ Attr(B, n).kind = "float")}
Val(a, k) == IF k = -1 THEN a.filler ELSE a.v[k + 1]
BinAttrs(A, B, D, ma, mb, na, nb) ==
  LET both == {n \in Names(A) \cap Names(B) : Attr(A, n).kind = "float" /\ Attr(B, n).kind = "float"} IN
  AttrClauses(Drop(A, both), D, ma, na) \cup
  AttrClauses(Drop(B, Names(A)), D, mb, nb) \cup
  {"Attribute:" \o n : n \in {x \in both : ~(Has(D, x) /\ Attr(D, x).kind = "float" /\
      Attr(D, x).v = [k \in 1..Len(ma) |-> Val(Attr(A, x), ma[k]) + Val(Attr(B, x), mb[k])])}}
Mixed(A, B) == \E n \in Names(A) \cap Names(B) : (Attr(A, n).kind = "obj") # (Attr(B, n).kind = "obj")
BinF(ev, A, B, ma, mb, ok) ==
  IF Len(ma) # NumArcs(ev.out.f) \/ Len(mb) # NumArcs(ev.out.f) THEN {"ArcMap"}
  ELSE BinAttrs(A, B, ev.out.attrs, ma, mb, NumArcs(ev.x.f), NumArcs(ev.b.f)) \cup Extra(A \o B, ev.out.attrs, ok)

InPlace(ev, want) ==     \* attribute list after an in-place operation
  (IF ev.out.f = ev.x.f THEN {} ELSE {"ArcsChanged"}) \cup (IF AttrEq(ev.out.attrs, want) THEN {} ELSE {"InPlaceAttribute"})
Fill(A, n) == IF Has(A, n \o "_filler") THEN 1 ELSE 0

CatRec(rs) == [f |-> FoldLeft(LAMBDA x, y : x \o y.f, <<>>, rs)]
CatAttr(rs, n) == FoldLeft(LAMBDA x, y : x \o Attr(y.attrs, n).v, <<>>, rs)
CatF(ev, rs) ==
  (IF ev.out.f = CatRec(rs).f /\ ev.out.vec = 1 THEN {} ELSE {"Concatenation"}) \cup
  {"Attribute:" \o n : n \in {x \in UNION {Names(rs[i].attrs) : i \in 1..Len(rs)} :
     ~(Has(ev.out.attrs, x) /\ LET d == Attr(ev.out.attrs, x) IN
        IF \E i \in 1..Len(rs) : Has(rs[i].attrs, x) /\ Attr(rs[i].attrs, x).kind = "obj"
        THEN d.kind = "obj" /\ LET i == CHOOSE j \in 1..Len(rs) : Has(rs[j].attrs, x) /\ \A g \in 1..(j - 1) : ~Has(rs[g].attrs, x)
                               IN d.v = Attr(rs[i].attrs, x).v
        ELSE d.kind = Attr(rs[1].attrs, x).kind /\ d.v = CatAttr(rs, x))}}

Copy(ev) == (IF ev.out.f = ev.x.f /\ ev.out.vec = ev.x.vec THEN {} ELSE {"SameArcs"}) \cup (IF AttrEq(ev.out.attrs, ev.x.attrs) THEN {} ELSE {"SameAttributes"})

Sel(A, n) == IF Has(A, n) THEN <<Attr(A, n)>> ELSE <<>>
Flatten(a) == a

RawF(ev) ==
  LET n == Len(ev.src) IN
  (IF ev.dt2 = ev.dtype THEN {} ELSE {"Dtype"}) \cup
  (IF ev.out = (CASE ev.op = "index_select" -> [k \in 1..Len(ev.idx) |-> IF ev.idx[k] = -1 THEN ev.default ELSE ev.src[ev.idx[k] + 1]]
       [] ev.op = "index_select2" -> [k \in 1..Len(ev.idx) |-> IF ev.idx[k] = -1 THEN [j \in 1..ev.w |-> 0] ELSE ev.src[ev.idx[k] + 1]]
       [] ev.op = "index_add" -> [i \in 1..Len(ev.acc) |-> ev.acc[i] + SumSeq([k \in 1..Len(ev.idx) |-> IF ev.idx[k] = i - 1 THEN ev.src[k] ELSE 0])]
       [] ev.op = "index_add2" -> [i \in 1..Len(ev.acc) |-> [j \in 1..ev.w |->
              ev.acc[i][j] + SumSeq([k \in 1..Len(ev.idx) |-> IF ev.idx[k] = i - 1 THEN ev.src[k][j] ELSE 0])]]
       [] ev.op = "compose_arc_maps" -> [k \in 1..Len(ev.idx) |-> IF ev.idx[k] = -1 THEN -1 ELSE ev.src[ev.idx[k] + 1]]
       [] ev.op = "ragged_index" -> [k \in 1..Len(ev.rag) |-> [j \in 1..Len(ev.rag[k]) |-> IF ev.rag[k][j] = -1 THEN ev.default ELSE ev.src[ev.rag[k][j] + 1]]]
       [] OTHER -> [k \in 1..Len(ev.rag) |-> SumSeq([j \in 1..Len(ev.rag[k]) |-> ev.src[ev.rag[k][j] + 1]])])
   THEN {} ELSE {"IndexedValues"})

OpF(ev, s) ==
  CASE ev.op \in {"connect", "top_sort", "arc_sort", "add_loops", "rm_loops", "reverse", "closure", "union", "shortest_path"} -> FromIds(ev)
    [] ev.op = "index" -> Elements(ev, <<ev.i + 1>>)
    [] ev.op = "index_fsa" -> Elements(ev, [k \in 1..Len(ev.i) |-> ev.i[k] + 1])
    [] ev.op \in {"rm_eps", "rm_eps_loops"} ->
         IF Ids1(ev) # {} THEN Ids1(ev)
         ELSE IF Has(ev.out.attrs, "id") /\ Attr(ev.out.attrs, "id").kind = "int" THEN Tensor(ev.x, ev.out, Set1(ev.ids), {})
         ELSE {"Attribute:" \o n : n \in RagAttrBad(ev.x.attrs, ev.out.attrs, ev.ids, Flat(ev.x.f), TRUE, ev.op = "rm_eps")} \cup Extra(ev.x.attrs, ev.out.attrs, {})
    [] ev.op = "ragged_direct" ->
         {"Attribute:" \o n : n \in RagAttrBad(ev.x.attrs, ev.out.attrs, [k \in 1..Len(ev.rag) |-> [j \in 1..Len(ev.rag[k]) |-> ev.rag[k][j] + 1]],
                                               Flat(ev.x.f), ev.rm = 1, FALSE)} \cup Extra(ev.x.attrs, ev.out.attrs, {}) \cup
         Scores(ev.out, [k \in 1..Len(ev.rag) |-> SumSeq([j \in 1..Len(ev.rag[k]) |-> Flat(ev.x.f)[ev.rag[k][j] + 1][4]])])
    [] ev.op = "unary_direct" -> Tensor(ev.x, ev.out, ev.m, {}) \cup
         Scores(ev.out, [k \in 1..Len(ev.m) |-> IF ev.m[k] = -1 THEN 0 ELSE Flat(ev.x.f)[ev.m[k] + 1][4]])
    [] ev.op = "binary_direct" -> BinF(ev, ev.x.attrs, ev.b.attrs, ev.ma, ev.mb, {}) \cup
         Scores(ev.out, [k \in 1..Len(ev.ma) |-> (IF ev.ma[k] = -1 THEN 0 ELSE Flat(ev.x.f)[ev.ma[k] + 1][4]) +
                                                  (IF ev.mb[k] = -1 THEN 0 ELSE Flat(ev.b.f)[ev.mb[k] + 1][4])])
    [] ev.op \in {"intersect", "compose"} ->
         IF Ids1(ev) # {} THEN Ids1(ev) ELSE
         IF Len(ev.bids) # NumArcs(ev.out.f) \/ ~Idx(ev.bids, NumArcs(ev.b.f)) THEN {"ArcMap"} ELSE
         LET cut == IF ev.op = "compose" THEN {"aux_labels"} ELSE {} IN
         BinF(ev, Drop(ev.x.attrs, cut), Drop(ev.b.attrs, cut), Set1(ev.ids), Set1(ev.bids), cut) \cup
         Scores(ev.out, [k \in 1..Len(ev.ids) |-> (IF ev.ids[k] = <<>> THEN 0 ELSE Flat(ev.x.f)[ev.ids[k][1]][4]) +
                                                  (IF ev.bids[k] = <<>> THEN 0 ELSE Flat(ev.b.f)[ev.bids[k][1]][4])])
    [] ev.op \in {"vec", "cat"} -> CatF(ev, [i \in 1..Len(ev.hs) |-> s[ev.hs[i]]])
    [] ev.op \in {"clone", "detach", "dict"} -> Copy(ev)
    [] ev.op = "invert" ->
         LET a == Attr(ev.x.attrs, "aux_labels")  d == Attr(ev.out.attrs, "aux_labels")  A == Flat(ev.x.f)  D == Flat(ev.out.f) IN
         IF ~Has(ev.out.attrs, "aux_labels") \/ Len(D) # Len(A) THEN {"Invert"} ELSE
         (IF \A k \in 1..Len(A) : D[k][1] = A[k][1] /\ D[k][2] = A[k][2] /\ D[k][4] = A[k][4] /\ None(D[k][3]) = None(a.v[k]) /\ None(d.v[k]) = None(A[k][3])
          THEN {} ELSE {"Invert"}) \cup
         AttrClauses(Drop(ev.x.attrs, {"aux_labels"}), ev.out.attrs, [k \in 1..Len(A) |-> k - 1], Len(A)) \cup Extra(ev.x.attrs, ev.out.attrs, {})
    [] ev.op = "expand" ->
         IF Len(ev.ids) # NumArcs(ev.out.f) THEN {"ArcMap"} ELSE
         LET rg == {ev.rag[i] : i \in 1..Len(ev.rag)} IN
         AttrClauses(Drop(ev.x.attrs, rg), ev.out.attrs, Set1(ev.ids), NumArcs(ev.x.f)) \cup Extra(ev.x.attrs, ev.out.attrs, {})
    [] ev.op = "to_ragged" ->
         InPlace(ev, Append(Drop(ev.x.attrs, {ev.name}),
           [name |-> ev.name, kind |-> "rag", filler |-> 0,
            v |-> [k \in 1..Len(Attr(ev.x.attrs, ev.name).v) |-> LET y == Attr(ev.x.attrs, ev.name).v[k] IN IF ev.rme = 1 /\ y = 0 THEN <<>> ELSE <<y>>]]))
    [] ev.op = "rename" ->
         LET ff == ev.name \o "_filler" IN
         InPlace(ev, Drop(ev.x.attrs, {ev.name, ff}) \o << [Attr(ev.x.attrs, ev.name) EXCEPT !.name = ev.to] >> \o
           (IF Has(ev.x.attrs, ff) THEN << [Attr(ev.x.attrs, ff) EXCEPT !.name = ev.to \o "_filler"] >> ELSE <<>>))
    [] ev.op = "set" ->
         LET fl == IF ev.v.kind # "rag" /\ Has(ev.x.attrs, ev.name) THEN Attr(ev.out.attrs, ev.name).filler ELSE 0 IN
         InPlace(ev, Append(Drop(ev.x.attrs, {ev.name}), [name |-> ev.name, kind |-> ev.v.kind, v |-> ev.v.v,
              filler |-> IF Has(ev.out.attrs, ev.name) THEN Attr(ev.out.attrs, ev.name).filler ELSE 0]))
    [] ev.op = "del" ->
         LET D == Drop(ev.x.attrs, {ev.name}) IN
         InPlace(ev, [i \in 1..Len(D) |-> IF ev.name = D[i].name \o "_filler" THEN [D[i] EXCEPT !.filler = 0] ELSE D[i]])
    [] OTHER -> {"UnknownOp"}

MutOps == {"to_ragged", "rename", "set", "del"}
RawOps == {"index_select", "index_select2", "index_add", "index_add2", "compose_arc_maps", "ragged_index", "index_and_sum", "simple_ragged_index"}
NoneOrFinal(ev) == LET A == Flat(ev.x.f)  v == Attr(ev.x.attrs, "aux_labels").v IN
  \A k \in 1..Len(A) : IF A[k][3] = -1 THEN v[k] \in {-1, 0} ELSE v[k] # -1
Clash(ev) ==
  ev.op \in {"binary_direct", "intersect", "compose"} /\
  (Conflict(Drop(ev.x.attrs, IF ev.op = "compose" THEN {"aux_labels"} ELSE {}), Drop(ev.b.attrs, IF ev.op = "compose" THEN {"aux_labels"} ELSE {})) # {}
  )
MayRaise(ev) ==
  \/ ev.op \in {"invert", "compose"} /\ ~NoneOrFinal(ev)
  \/ ev.op \in {"binary_direct", "intersect", "compose"} /\ Mixed(ev.x.attrs, ev.b.attrs)
  \/ ev.op = "expand" /\ Has(ev.x.attrs, "aux_labels") /\ Attr(ev.x.attrs, "aux_labels").kind = "int" /\ ~NoneOrFinal(ev)
  \/ Clash(ev)
T6Init == <<>>
TFailing(ev0, s) ==
  LET ev == IF "h" \in DOMAIN ev0 /\ "x" \notin DOMAIN ev0 /\ ev0.op # "new" THEN ("x" :> s[ev0.h]) @@ ev0 ELSE ev0 IN
  CASE ev.op = "new" -> {}
    [] ev.op = "audit" -> UNION {IF SameRec(ev.rs[i].r, s[ev.rs[i].h]) THEN {} ELSE {"OtherObjectChanged"} : i \in 1..Len(ev.rs)}
    [] ev.op \in RawOps -> IF "err" \in DOMAIN ev THEN {"Raised:" \o ev.err} ELSE RawF(ev)
    [] OTHER ->
      (IF "x" \in DOMAIN ev0 /\ ~SameRec(ev.x, s[ev.h]) THEN {"OtherObjectChanged"} ELSE {}) \cup
      (IF "x2" \in DOMAIN ev /\ ~SameRec(ev.x2, ev.x) THEN {"OperandChanged"} ELSE {}) \cup
      (IF "b2" \in DOMAIN ev /\ ~SameRec(ev.b, ev.b2) THEN {"OperandChanged"} ELSE {}) \cup
      (IF "err" \in DOMAIN ev THEN (IF MayRaise(ev) THEN {} ELSE {"Raised:" \o ev.err})
       ELSE (IF Clash(ev) THEN {"ConflictAccepted"} ELSE
             (IF ev.out.same = 1 THEN {} ELSE {"ScoresAreArcScores"}) \cup (IF MayRaise(ev) THEN {} ELSE OpF(ev, s))))
TStep(ev, s) ==
  CASE ev.op = "new" -> (ev.h :> ev.r) @@ s
    [] ev.op \in MutOps /\ "err" \notin DOMAIN ev -> (ev.h :> ev.out) @@ s
    [] OTHER -> s
=============================================================================
