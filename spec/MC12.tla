-------------------------------- MODULE MC12 --------------------------------
(* The recurrences over frames compute what the definition by paths says: an  *)
(* arc's deficit is the distance of the best complete path through it, and the *)
(* arcs within a beam form a connected lattice.                               *)
EXTENDS K2Dense
CONSTANTS N, MaxArcs, MaxT, C, W
VARIABLES F, b
Cnt(a, n) == [s \in 1..n |-> Cardinality({k \in 1..Len(a) : a[k][1] = s - 1})]
Mk(a) == [n |-> N, a |-> a, c |-> Cnt(a, N)]
Init == F = Mk(<<>>) /\ b = <<>>
AddArc == b = <<>> /\ Len(F.a) < MaxArcs /\ \E s \in 0..(N - 2), d \in 0..(N - 1), lab \in 0..(C - 1) :
            (d = N - 1 => lab = 0) /\ (F.a # <<>> => F.a[Len(F.a)][1] <= s) /\
            F' = Mk(Append(F.a, <<s, d, IF d = N - 1 THEN -1 ELSE lab, Len(F.a) % 2>>)) /\ UNCHANGED b
AddFrame == Len(b) < MaxT /\ \E r \in [1..C -> W] : b' = Append(b, <<NegInf>> \o r) /\ UNCHANGED F
Next == AddArc \/ AddFrame
Rows == Append(b, FinalRow(C))
RECURSIVE Walks(_, _, _)
Walks(s, t, p) == IF t = Len(Rows) THEN (IF s = Final(F) THEN {p} ELSE {})
                  ELSE UNION {Walks(Dst(F, k), t + 1, Append(p, k)) : k \in {j \in 1..NArcs(F) : Src(F, j) = s /\ RowSc(Rows[t + 1], F.a[j]) # NegInf}}
PW(p) == SumSeq([t \in 1..Len(p) |-> RowSc(Rows[t], F.a[p[t]])])
Correct ==
  LET P == Walks(0, 0, <<>>)
      f == FwdD(F, Rows)  w == BwdD(F, Rows)  best == f[Len(Rows) + 1][Final(F)]
      A == ArcDef(F, Rows, f, w, best)  S == StateDef(F, Rows, f, w, best) IN
  /\ (P = {} <=> best = NegInf) /\ w[1][0] = best
  /\ P # {} => best = Max({PW(p) : p \in P})
  /\ A = {<<t, k, best - Max({PW(p) : p \in {q \in P : q[t + 1] = k}})>> : <<t, k>> \in {x \in (0..(Len(Rows) - 1)) \X (1..NArcs(F)) : \E q \in P : q[x[1] + 1] = x[2]}}
  /\ \A B \in 0..3 :     \* what a beam keeps is connected, at any beam
       LET KA == {x \in A : x[3] <= B}  KS == {x \in S : x[3] <= B} IN
       /\ \A x \in KA : (\E y \in KS : y[1] = x[1] /\ y[2] = Src(F, x[2])) /\ \E y \in KS : y[1] = x[1] + 1 /\ y[2] = Dst(F, x[2])
       /\ \A y \in KS : ((y[1] = 0 /\ y[2] = 0) \/ \E x \in KA : x[1] + 1 = y[1] /\ Dst(F, x[2]) = y[2]) /\
                        ((y[1] = Len(Rows) /\ y[2] = Final(F)) \/ \E x \in KA : x[1] = y[1] /\ Src(F, x[2]) = y[2])
=============================================================================
