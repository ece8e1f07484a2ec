-------------------------------- MODULE K2Attr --------------------------------
(* How arc attributes follow an arc map.  An attribute is a record           *)
(* [name, kind, filler, v] with one value per arc (kind "obj": one value for *)
(* the whole automaton).  An arc map gives, per result arc, the 0-based      *)
(* source arc or -1.                                                         *)
EXTENDS K2Wfsa

Default(s) == CASE s.kind = "int" -> s.filler [] s.kind = "rag" -> <<>> [] OTHER -> s.filler
AttrNames(S) == {S[i].name : i \in 1..Len(S)}
Attr(S, n) == S[CHOOSE i \in 1..Len(S) : S[i].name = n]
Has(S, n) == \E i \in 1..Len(S) : S[i].name = n /\ S[i].kind # "missing"

None(x) == IF x = -1 THEN 0 ELSE x
NoneSeq(x) == SelectSeq(x, LAMBDA y : y # -1 /\ y # 0)

\* the secondary label of an arc that is (or was) final: -1 and 0 both mean none
SameVal(s, x, y) ==
  IF s.name = "aux_labels" THEN (IF s.kind = "rag" THEN NoneSeq(x) = NoneSeq(y) ELSE None(x) = None(y))
  ELSE x = y

\* names of attributes of S that the result attributes D do not carry along m
AttrBad(S, D, m, n) ==       \* n: number of arcs of the source
  {s.name : s \in {S[i] : i \in {j \in 1..Len(S) :
     LET a == S[j] IN
     ~( Has(D, a.name) /\
        LET d == Attr(D, a.name) IN
        IF a.kind = "obj" THEN d.kind = "obj" /\ d.v = a.v
        ELSE /\ d.kind = a.kind
             /\ Len(a.v) = n
             /\ Len(d.v) = Len(m)
             /\ a.kind = "int" => d.filler = a.filler
             /\ \A k \in 1..Len(m) :
                  IF m[k] = -1 THEN SameVal(a, d.v[k], Default(a))
                  ELSE m[k] \in 0..(n - 1) /\ SameVal(a, d.v[k], a.v[m[k] + 1]) )}}}
AttrClauses(S, D, m, n) == {"Attribute:" \o x : x \in AttrBad(S, D, m, n)}
MapInto(m, n) == \A k \in 1..Len(m) : m[k] \in -1..(n - 1)
NumArcs(S) == FoldLeft(LAMBDA x, y : x + Len(y.a), 0, S)
Flat(S) == FoldLeft(LAMBDA x, y : x \o y.a, <<>>, S)
ArcOff(S, i) == NumArcs(SubSeq(S, 1, i - 1))
\* the part of the arc map that belongs to element i, rebased to source element i (positions, 0 none)
Cut(m, O, I, i) == LET o == ArcOff(O, i)  b == ArcOff(I, i) IN
  [k \in 1..Len(O[i].a) |-> IF m[o + k] = -1 THEN 0 ELSE m[o + k] - b + 1]
=============================================================================
