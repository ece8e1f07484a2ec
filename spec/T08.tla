--------------------------------- MODULE T08 ---------------------------------
EXTENDS TraceBase, K2Score
\* scores of multiples of 1000: only the best paths count, in pairs <<best, number>>
BMul(x, w) == IF x[1] = NegInf THEN x ELSE <<x[1] + w, x[2]>>
BAdd(x, y) == IF x[1] > y[1] THEN x ELSE IF y[1] > x[1] THEN y ELSE IF x[1] = NegInf THEN x ELSE <<x[1], x[2] + y[2]>>
BFwd(F) == FoldLeft(LAMBDA V, a : [V EXCEPT ![a[2]] = BAdd(@, BMul(V[a[1]], a[4]))],
                    [s \in States(F) |-> IF s = 0 THEN <<0, 1>> ELSE <<NegInf, 0>>], F.a)
BBwd(F) == FoldRight(LAMBDA a, V : [V EXCEPT ![a[1]] = BAdd(@, BMul(V[a[2]], a[4]))],
                     F.a, [s \in States(F) |-> IF s = Final(F) THEN <<0, 1>> ELSE <<NegInf, 0>>])
BTot(F) == IF F.n = 0 THEN <<NegInf, 0>> ELSE BFwd(F)[Final(F)]
Off(S, i) == SumSeq([j \in 1..(i - 1) |-> S[j].n])
AOff(S, i) == SumSeq([j \in 1..(i - 1) |-> Len(S[j].a)])
Ent(ev) ==
  LET S == ev.f IN
  IF Len(ev.out.ent) # SumSeq([i \in 1..Len(S) |-> S[i].n]) THEN {"EnteringArcs"}
  ELSE IF \A i \in 1..Len(S) : S[i].n > 0 =>
       LET fw == Fwd(S[i], "trop") IN
       \A s \in 0..(S[i].n - 1) : LET e == ev.out.ent[Off(S, i) + s + 1] IN
         BestEntering(S[i], fw, s, IF e = -1 THEN 0 ELSE IF e - AOff(S, i) + 1 < 1 THEN NArcs(S[i]) + 1 ELSE e - AOff(S, i) + 1)
       THEN {} ELSE {"EnteringArcs"}
TFailing(ev, s) ==
  LET S == ev.f  O == ev.out  m == ev.mode IN
  IF \E i \in 1..Len(S) : ~ValidFsa(S[i]) \/ ~Upward(S[i]) THEN {"Input"} ELSE
  IF m = "big" THEN
    (IF O.fwd = FlatV(S, BFwd) THEN {} ELSE {"ForwardScores"}) \cup
    (IF O.bwd = FlatV(S, BBwd) THEN {} ELSE {"BackwardScores"}) \cup
    (IF O.tot = [i \in 1..Len(S) |-> BTot(S[i])] THEN {} ELSE {"TotalScores"})
  ELSE
  LET FF(F) == Fwd(F, m)  BB(F) == Bwd(F, m)  PP(F) == Post(F, m) IN
  (IF O.fwd = FlatV(S, FF) THEN {} ELSE {"ForwardScores"}) \cup
  (IF O.bwd = FlatV(S, BB) THEN {} ELSE {"BackwardScores"}) \cup
  (IF O.tot = [i \in 1..Len(S) |-> Tot(S[i], m)] THEN {} ELSE {"TotalScores"}) \cup
  (IF O.post = FlatA(S, PP) THEN {} ELSE {"ArcPosteriors"}) \cup
  (IF m = "trop" THEN Ent(ev) ELSE {}) \cup
  (IF O.dtype = <<ev.dbl, ev.dbl, ev.dbl, ev.dbl>> THEN {} ELSE {"Dtype"}) \cup
  (IF O.again = 1 THEN {} ELSE {"Repeatable"}) \cup
  (IF ev.f2 = S THEN {} ELSE {"OperandChanged"})
TStep(ev, s) == s
=============================================================================
