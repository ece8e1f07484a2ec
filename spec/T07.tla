--------------------------------- MODULE T07 ---------------------------------
(* Histories of reads, writes, copies and derivations on a pool of automata. *)
(* The abstract state holds the contents of every object; whatever an object *)
(* reports is decided from its contents alone.                               *)
EXTENDS TraceBase, K2Props, K2Path, K2Attr
Names(A) == {A[i].name : i \in 1..Len(A)}
Drop(A, D) == SelectSeq(A, LAMBDA a : a.name \notin D)
AttrEq(A, B) == Len(A) = Len(B) /\ \A i \in 1..Len(A) : Has(B, A[i].name) /\
  LET b == Attr(B, A[i].name) IN b.kind = A[i].kind /\ b.filler = A[i].filler /\ b.v = A[i].v
SameRec(p, q) == p.vec = q.vec /\ p.f = q.f /\ p.rg = q.rg /\ AttrEq(p.attrs, q.attrs)
\* fillers follow the attribute "<name>_filler", whatever order they were assigned in
FillerOf(A, n) == IF Has(A, n \o "_filler") /\ Attr(A, n \o "_filler").kind = "obj" THEN Attr(A, n \o "_filler").num ELSE 0
SetScoresF(S, w) == \* w: one score per arc of the whole batch
  [i \in 1..Len(S) |-> LET o == ArcOff(S, i) IN [S[i] EXCEPT !.a = [k \in 1..Len(S[i].a) |-> [S[i].a[k] EXCEPT ![4] = w[o + k]]]]]
FixLab(F, k, x) == IF F.a[k][2] = F.n - 1 THEN -1 ELSE IF x = -1 THEN 0 ELSE x   \* 0 and -1 are interchangeable on input
SetLabelsF(S, w) ==
  [i \in 1..Len(S) |-> LET o == ArcOff(S, i) IN [S[i] EXCEPT !.a = [k \in 1..Len(S[i].a) |-> [S[i].a[k] EXCEPT ![3] = FixLab(S[i], k, w[o + k])]]]]
Labs(S) == [k \in 1..NumArcs(S) |-> Flat(S)[k][3]]

Written(ev, r) ==     \* contents after the write
  CASE ev.op = "scores" -> [r EXCEPT !.f = SetScoresF(r.f, ev.v), !.rg = ev.rg]
    [] ev.op = "labels" -> [r EXCEPT !.f = SetLabelsF(r.f, ev.v)]
    [] ev.op = "grad" -> [r EXCEPT !.rg = ev.on]
    [] ev.op = "attr" -> [r EXCEPT !.attrs = Append(Drop(r.attrs, {ev.a.name}), ev.a)]
    [] ev.op = "del" -> [r EXCEPT !.attrs = Drop(r.attrs, {ev.name})]
    [] ev.op = "rename" ->       \* the filler of the attribute goes along with it, the one of the overwritten name is forgotten
         LET A == Append(Drop(r.attrs, {ev.name, ev.to, ev.name \o "_filler", ev.to \o "_filler"}), [Attr(r.attrs, ev.name) EXCEPT !.name = ev.to]) IN
         [r EXCEPT !.attrs = IF Has(r.attrs, ev.name \o "_filler") THEN Append(A, [Attr(r.attrs, ev.name \o "_filler") EXCEPT !.name = ev.to \o "_filler"]) ELSE A]
    [] ev.op = "invert_" -> [r EXCEPT !.f = SetLabelsF(r.f, Attr(r.attrs, "aux_labels").v),
                                      !.attrs = Append(Drop(r.attrs, {"aux_labels"}), [Attr(r.attrs, "aux_labels") EXCEPT !.v = Labs(r.f)])]
\* fillers are looked up by name, so a write to x_filler shows in x
Refill(r) == [r EXCEPT !.attrs = [i \in 1..Len(@) |-> IF r.attrs[i].kind \in {"int", "float"} THEN [r.attrs[i] EXCEPT !.filler = FillerOf(r.attrs, r.attrs[i].name)] ELSE r.attrs[i]]]
AuxEq(A, B) == \* the secondary label of a final arc may be written 0 or -1
  Len(A) = Len(B) /\ \A i \in 1..Len(A) : Has(B, A[i].name) /\
  LET b == Attr(B, A[i].name) IN b.kind = A[i].kind /\ b.filler = A[i].filler /\ Len(b.v) = Len(A[i].v) /\
    IF A[i].name = "aux_labels" /\ A[i].kind = "int" THEN \A k \in 1..Len(b.v) : None(b.v[k]) = None(A[i].v[k]) ELSE b.v = A[i].v
WriteF(ev, s) ==
  LET w == Refill(Written(ev, s[ev.h]))  o == ev.out IN
  (IF o.f = w.f /\ o.vec = w.vec THEN {} ELSE {"WrittenArcs"}) \cup
  (IF o.same = 1 THEN {} ELSE {"ScoresAreArcScores"}) \cup
  (IF o.lsame = 1 THEN {} ELSE {"LabelsAreArcLabels"}) \cup
  (IF o.rg = w.rg THEN {} ELSE {"RequiresGrad"}) \cup
  (IF (IF ev.op = "invert_" THEN AuxEq(w.attrs, o.attrs) ELSE AttrEq(w.attrs, o.attrs)) THEN {} ELSE {"WrittenAttributes"})
AOff(S, i) == ArcOff(S, i)
SOff(S, i) == SumSeq([j \in 1..(i - 1) |-> S[j].n])
EntOk(S, e) ==
  Len(e) = SOff(S, Len(S) + 1) /\
  \A i \in 1..Len(S) : S[i].n > 0 =>
     LET fw == Fwd(S[i], "trop") IN
     \A q \in 0..(S[i].n - 1) : LET x == e[SOff(S, i) + q + 1] IN
       BestEntering(S[i], fw, q, IF x = -1 THEN 0 ELSE IF x - AOff(S, i) + 1 < 1 THEN NArcs(S[i]) + 1 ELSE x - AOff(S, i) + 1)
ReadF(ev, r) ==
  LET S == r.f  m == ev.mode
      FF(F) == Fwd(F, m)  BB(F) == Bwd(F, m)  PP(F) == Post(F, m) IN
  IF ev.what = "cdf" THEN
    IF Len(ev.out) # Len(S) THEN {"Reported:paths"}
    ELSE IF m = "log" THEN UNION {SampleClauses(S[i], ev.n, [j \in 1..Len(ev.out[i]) |-> [k \in 1..Len(ev.out[i][j]) |-> ev.out[i][j][k] + 1 - AOff(S, i)]]) : i \in 1..Len(S)}
    ELSE IF \A i \in 1..Len(S) : LET P == [j \in 1..Len(ev.out[i]) |-> [k \in 1..Len(ev.out[i][j]) |-> ev.out[i][j][k] + 1 - AOff(S, i)]] IN
              Len(P) = (IF Tot(S[i], m) = NegInf THEN 0 ELSE ev.n) /\ \A j \in 1..Len(P) : IsPath(S[i], P[j]) /\ WalkW(S[i], m, P[j]) # NegInf
         THEN {} ELSE {"Reported:paths"}
  ELSE IF ev.what = "entering2" THEN \* the arcs along the reported best paths
    IF Len(ev.out) = Len(S) /\ \A i \in 1..Len(S) : ev.out[i] = Tot(S[i], "trop") THEN {} ELSE {"Reported:best"}
  ELSE
  IF CASE ev.what = "forward" -> ev.out = FlatV(S, FF)
       [] ev.what = "backward" -> ev.out = FlatV(S, BB)
       [] ev.what = "total" -> ev.out = [i \in 1..Len(S) |-> Tot(S[i], m)]
       [] ev.what = "post" -> ev.out = FlatA(S, PP)
       [] ev.what = "entering" -> EntOk(S, ev.out)
       [] ev.what = "count" -> ev.out = <<NumArcs(S), IF r.vec = 1 THEN Len(S) ELSE S[1].n>>
       [] OTHER -> FALSE
  THEN {} ELSE {"Reported:" \o ev.what}
ToSet_(x) == {x[i] : i \in 1..Len(x)}
PropsF(ev, r) ==
  LET want == BatchFlags(r.f)  have == ToSet_(ev.out)
      open == IF \E i \in 1..Len(r.f) : r.f[i].n = 1 THEN {"ACCESSIBLE", "COACCESSIBLE", "VALID"} ELSE {} IN
  {"Reported:" \o x : x \in {y \in AllFlags \ open : (y \in want) # (y \in have)}}
CopyF(ev, r) ==
  (IF ev.r.f = r.f /\ ev.r.vec = r.vec /\ ev.r.same = 1 /\ ev.r.lsame = 1 THEN {} ELSE {"CopiedArcs"}) \cup
  (IF AttrEq(r.attrs, ev.r.attrs) THEN {} ELSE {"CopiedAttributes"}) \cup
  (IF ev.r.rg = (IF ev.keep = 1 THEN r.rg ELSE 0) THEN {} ELSE {"RequiresGrad"})
WriteOps == {"scores", "labels", "grad", "attr", "del", "rename", "invert_"}
T7Init == <<>>
TFailing(ev, s) ==
  CASE "err" \in DOMAIN ev -> {"Raised:" \o ev.err}
    [] ev.op = "new" -> IF ev.r.same = 1 /\ ev.r.lsame = 1 THEN {} ELSE {"ScoresAreArcScores"}
    [] ev.op = "copy" -> CopyF(ev, s[ev.h])
    [] ev.op = "seen" -> IF SameRec(ev.r, s[ev.h]) THEN {} ELSE {"OtherObjectChanged"}
    [] ev.op \in WriteOps -> WriteF(ev, s)
    [] ev.op = "read" -> ReadF(ev, s[ev.h])
    [] ev.op = "props" -> PropsF(ev, s[ev.h])
    [] OTHER -> {"UnknownOp"}
TStep(ev, s) ==
  CASE ev.op \in {"new"} -> (ev.h :> ev.r) @@ s
    [] ev.op = "copy" -> (ev.to :> ev.r) @@ s
    [] ev.op \in WriteOps /\ "err" \notin DOMAIN ev -> (ev.h :> ev.out) @@ s
    [] OTHER -> s
=============================================================================
