------------------------------- MODULE K2Grad -------------------------------
(* Derivatives of the scores of acyclic, topologically sorted automata.      *)
(* log: integers over integers, compared as fixed-point numbers of scale S;  *)
(* trop: indicators of best paths.                                           *)
EXTENDS K2Score
S == 10000
FwdFrom(F, m, s0) == FoldLeft(LAMBDA V, a : [V EXCEPT ![a[2]] = Add(m, @, Mul(m, V[a[1]], a[4]))],
                      [s \in States(F) |-> IF s = s0 THEN One(m) ELSE Zero(m)], F.a)
BwdTo(F, m, s0) == FoldRight(LAMBDA a, V : [V EXCEPT ![a[1]] = Add(m, @, Mul(m, V[a[2]], a[4]))],
                       F.a, [s \in States(F) |-> IF s = s0 THEN One(m) ELSE Zero(m)])
\* how much of the walks from state p to state q passes through each arc (scale S)
Share(F, m, p, q) ==
  LET fw == FwdFrom(F, m, p)  bw == BwdTo(F, m, q)  t == fw[q] IN
  [k \in 1..NArcs(F) |->
     LET x == PostNum(F, m, fw, bw, k) IN
     IF m = "log" THEN (IF t = 0 THEN 0 ELSE (S * x) \div t)
     ELSE IF t # NegInf /\ x = t THEN S ELSE 0]
\* number of best walks from p to q
PairAdd(x, y) == IF x[1] > y[1] THEN x ELSE IF y[1] > x[1] THEN y ELSE <<x[1], x[2] + y[2]>>
Ties(F, p, q) ==
  FoldLeft(LAMBDA V, a : IF V[a[1]][1] = NegInf \/ a[4] = NegInf THEN V
                         ELSE [V EXCEPT ![a[2]] = PairAdd(@, <<V[a[1]][1] + a[4], V[a[1]][2]>>)],
           [s \in States(F) |-> IF s = p THEN <<0, 1>> ELSE <<NegInf, 0>>], F.a)[q][2]
Delta(j, k) == IF j = k THEN S ELSE 0
DFwd(F, m, s) == Share(F, m, 0, s)
DBwd(F, m, s) == Share(F, m, s, Final(F))
DPost(F, m, j) ==
  LET a == Share(F, m, 0, Src(F, j))  b == Share(F, m, Dst(F, j), Final(F))  t == Share(F, m, 0, Final(F)) IN
  [k \in 1..NArcs(F) |-> a[k] + Delta(j, k) + b[k] - t[k]]
Near(x, y, tol) == x - y \in (-tol)..tol
=============================================================================
