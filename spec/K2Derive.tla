------------------------------- MODULE K2Derive -------------------------------
(* Results whose arcs stand for sequences of source arcs (epsilon removal,   *)
(* determinization).  ids[k]: positions of the source arcs of result arc k.  *)
EXTENDS K2Attr

IdsIn(ids, n) == \A k \in 1..Len(ids) : \A i \in 1..Len(ids[k]) : ids[k][i] \in 1..n
Contiguous(F, p) == \A i \in 1..(Len(p) - 1) : Dst(F, p[i]) = Src(F, p[i + 1])
ConcatSeq(s) == FoldLeft(LAMBDA x, y : x \o y, <<>>, s)

(* what an attribute becomes: dense int -> sequence without fillers, float -> *)
(* sum, ragged -> concatenation                                               *)
Expect(s, seq, A, rm, zeros) ==
  CASE s.kind = "int" ->
         LET vs == [i \in 1..Len(seq) |-> IF rm /\ A[seq[i]][3] = -1 /\ s.v[seq[i]] = -1 THEN s.filler ELSE s.v[seq[i]]]
         IN SelectSeq(vs, LAMBDA x : ~(rm /\ x = s.filler) /\ ~(zeros /\ s.name = "aux_labels" /\ x = 0))
    [] s.kind = "rag" -> SelectSeq(ConcatSeq([i \in 1..Len(seq) |-> s.v[seq[i]]]), LAMBDA x : ~(zeros /\ s.name = "aux_labels" /\ x = 0))
    [] OTHER -> SumSeq([i \in 1..Len(seq) |-> s.v[seq[i]]])
RagAttrBad(S, D, ids, A, rm, zeros) ==
  {S[j].name : j \in {i \in 1..Len(S) :
     LET a == S[i] IN
     ~(Has(D, a.name) /\
       LET d == Attr(D, a.name) IN
       IF a.kind = "obj" THEN d.kind = "obj" /\ d.v = a.v
       ELSE /\ d.kind = (IF a.kind = "int" THEN "rag" ELSE a.kind)
            /\ Len(d.v) = Len(ids)
            /\ \A k \in 1..Len(ids) : d.v[k] = Expect(a, ids[k], A, rm, zeros))}}

(* weights of strings as functions, compared within a tolerance *)
NearLang(P, Q, tol) ==
  /\ {x[1] : x \in P} = {x[1] : x \in Q}
  /\ \A x \in P : \A y \in Q : x[1] = y[1] => x[2] - y[2] <= tol /\ y[2] - x[2] <= tol
Scale(F, f) == [F EXCEPT !.a = [k \in 1..Len(F.a) |-> [F.a[k] EXCEPT ![4] = @ * f]]]

EpsFree(C) == \A k \in 1..NArcs(C) : Lab(C, k) # 0
EpsFreeButLoops(C) == \A k \in 1..NArcs(C) : Lab(C, k) = 0 => Src(C, k) = Dst(C, k)
DeterministicArcs(C) == \A i, j \in 1..NArcs(C) : (i < j /\ Src(C, i) = Src(C, j)) => Lab(C, i) # Lab(C, j)

(* epsilon removal: every result arc is one path of epsilons around one       *)
(* labelled arc, with its label and score                                     *)
RmEpsArcs(F, C, ids) ==
  \A k \in 1..NArcs(C) :
    IF Lab(C, k) = 0 THEN ids[k] = <<>> /\ Wt(C, k) = 0
    ELSE /\ ids[k] # <<>> /\ Contiguous(F, ids[k])
         /\ SelectSeq([i \in 1..Len(ids[k]) |-> Lab(F, ids[k][i])], LAMBDA x : x # 0) = <<Lab(C, k)>>
         /\ Wt(C, k) = SumSeq([i \in 1..Len(ids[k]) |-> Wt(F, ids[k][i])])

(* along every accepted string the concatenated source arcs form a path of F  *)
(* with that string and weight w(string) -- checked on the bounded paths      *)
PathsAreSourcePaths(F, C, ids, B, eps) ==
  \A p \in BPaths(C, B) :
    LET q == ConcatSeq([i \in 1..Len(p) |-> ids[p[i]]]) IN
    /\ q # <<>> /\ Contiguous(F, q) /\ Src(F, q[1]) = 0 /\ Dst(F, q[Len(q)]) = Final(F)
    /\ [i \in 1..Len(p) |-> Lab(C, p[i])] = (IF eps THEN SelectSeq([i \in 1..Len(q) |-> Lab(F, q[i])], LAMBDA x : x # 0)
                                             ELSE [i \in 1..Len(q) |-> Lab(F, q[i])])
=============================================================================
