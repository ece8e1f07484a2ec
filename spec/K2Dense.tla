------------------------------- MODULE K2Dense -------------------------------
(* Frame-synchronous intersection of a decoding graph with acoustic scores.   *)
(* b is the sequence of score rows of one utterance; in a row position        *)
(* label + 2 holds the score of the label, so the first one is for label -1:  *)
(* minus infinity on ordinary frames; on the extra last row it is 0 and all   *)
(* others are minus infinity.  The lattice has states <<t, s>> and arcs       *)
(* <<t, k>>, t = 0..Len(b)-1, k an arc of the graph.                          *)
EXTENDS K2Score

\* rows of the supervision <<sequence, start, duration>> of a dense score tensor
FinalRow(C) == [c \in 1..(C + 1) |-> IF c = 1 THEN 0 ELSE NegInf]
SegRows(LP, C, seg) ==
  LET fr == LP[seg[1] + 1]
      end == Min2(seg[2] + seg[3], Len(fr)) IN
  [t \in 1..(end - seg[2]) |-> <<NegInf>> \o fr[seg[2] + t]] \o <<FinalRow(C)>>

RowSc(row, a) == IF a[3] + 2 > Len(row) THEN NegInf ELSE Plus(a[4], row[a[3] + 2])
FwdRow(G, row, V) == FoldLeft(LAMBDA W, a : IF V[a[1]] = NegInf THEN W ELSE [W EXCEPT ![a[2]] = Max2(@, Plus(V[a[1]], RowSc(row, a)))], ZeroVec(G), G.a)
BwdRow(G, row, V) == FoldLeft(LAMBDA W, a : IF V[a[2]] = NegInf THEN W ELSE [W EXCEPT ![a[1]] = Max2(@, Plus(V[a[2]], RowSc(row, a)))], ZeroVec(G), G.a)
EndVec(G) == [s \in States(G) |-> IF s = Final(G) THEN 0 ELSE NegInf]
FwdD(G, b) == FoldLeft(LAMBDA X, row : Append(X, FwdRow(G, row, X[Len(X)])), <<StartVec(G)>>, b)
BwdD(G, b) == FoldRight(LAMBDA row, X : <<BwdRow(G, row, X[1])>> \o X, b, <<EndVec(G)>>)
BestD(G, b) == IF G.n = 0 THEN NegInf ELSE FwdD(G, b)[Len(b) + 1][Final(G)]

\* how far below the best path everything of the lattice is: sets of <<t, state or arc, deficit>>
ArcDef(G, b, f, w, best) ==
  IF best = NegInf THEN {} ELSE
  {x \in {<<t, k, LET p == Plus(Plus(f[t + 1][Src(G, k)], RowSc(b[t + 1], G.a[k])), w[t + 2][Dst(G, k)])
                  IN IF p = NegInf THEN PosInf ELSE best - p>> : t \in 0..(Len(b) - 1), k \in 1..NArcs(G)} : x[3] # PosInf}
StateDef(G, b, f, w, best) ==
  IF best = NegInf THEN {} ELSE
  {x \in {<<t, s, LET p == Plus(f[t + 1][s], w[t + 1][s]) IN IF p = NegInf THEN PosInf ELSE best - p>>
            : t \in 0..Len(b), s \in States(G)} : x[3] # PosInf}

(* O with, per arc, the graph arc (position, 0 = none) and the frame it is    *)
(* said to come from: is it a part of the lattice of G and b, one to one?     *)
OArcs(ids, fr) == {<<fr[j], ids[j]>> : j \in 1..Len(ids)}
Origin(G, b, O, ids, fr) ==
  Len(ids) = Len(O.a) /\ Len(fr) = Len(O.a) /\ \A j \in 1..Len(O.a) : ids[j] \in 1..NArcs(G) /\ fr[j] \in 0..(Len(b) - 1)
OneToOne(ids, fr) == Cardinality(OArcs(ids, fr)) = Len(ids)
SameArc(G, b, O, ids, fr, j) == Lab(O, j) = Lab(G, ids[j]) /\ Wt(O, j) = RowSc(b[fr[j] + 1], G.a[ids[j]])
Images(G, O, ids, fr) == {<<Src(O, j), <<fr[j], Src(G, ids[j])>>>> : j \in 1..Len(O.a)} \cup {<<Dst(O, j), <<fr[j] + 1, Dst(G, ids[j])>>>> : j \in 1..Len(O.a)}
Bijective(P) == Cardinality({p[1] : p \in P}) = Cardinality(P) /\ Cardinality({p[2] : p \in P}) = Cardinality(P)
StatesOk(G, b, O, ids, fr) ==
  LET P == Images(G, O, ids, fr) \cup (IF O.n = 0 THEN {} ELSE {<<0, <<0, 0>>>>, <<Final(O), <<Len(b), Final(G)>>>>}) IN
  Bijective(P)
=============================================================================
