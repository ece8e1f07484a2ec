------------------------------- MODULE MC20S ---------------------------------
(* Histories of ragged operations whose operands are what the specification says earlier operations gave.                           *)
EXTENDS K2Ragged, TLC, Json
CONSTANTS Ops
VARIABLES regs, hist
RECURSIVE RandList(_)
RandList(d) == LET n == RandomElement({0, 1, 1, 2, 2, 3}) IN IF d = 1 THEN [i \in 1..n |-> RandomElement(0..3)] ELSE SubSeq([i \in 1..3 |-> RandList(d - 1)], 1, n)
Force(R) == [d |-> R.d, v |-> R.v]
NewOf(R) == [op |-> "new", src |-> <<>>, a |-> <<R.d, RandomElement(0..2)>>, v |-> Append([k \in 1..(R.d - 1) |-> Splits(R, k)], Values(R))]
E(o, s, a, v) == [op |-> o, src |-> s, a |-> a, v |-> v]
Init == regs = <<>> /\ hist = <<>>
Put(e, Rs) == regs' = regs \o Rs /\ hist' = Append(hist, e)
Fresh == \E d \in {RandomElement({2, 3, 3, 4})} : \E L \in {RandList(d)} : LET R == Rag(d, L) IN Put(NewOf(R), <<R>>)
RandIdx(R, a) == LET n == TotSize(R, a) IN IF n = 0 THEN <<>> ELSE
  LET k == RandomElement(0..3)  raw == [i \in 1..k |-> RandomElement(0..(n - 1))] IN
  IF a = 0 THEN raw ELSE LET pos == {raw[i] : i \in 1..k} IN SelectSeq([i \in 1..n |-> i - 1], LAMBDA x : x \in pos)
Small(R) == \A a \in 0..(R.d - 1) : TotSize(R, a) <= 25
Act == regs # <<>> /\
  \E i \in {RandomElement(1..Len(regs))}, j \in {RandomElement(1..Len(regs))}, k \in {RandomElement(1..12)} :
  LET R == regs[i]  Q == regs[j] IN
  /\ Small(R) /\ Small(Q)
  /\ \/ k = 1 /\ \E a \in {RandomElement(0..(R.d - 1))} : \E x \in {RandIdx(R, a)} : Put(E("idx", <<i>>, <<a>>, <<x>>), <<IndexAxis(R, a, x)>>)
     \/ k = 2 /\ R.d > 2 /\ \E a \in {RandomElement(0..(R.d - 2))} : Put(E("rmaxis", <<i>>, <<a>>, <<>>), <<RemoveAxis(R, a)>>)
     \/ k = 3 /\ \E a \in {RandomElement(0..(R.d - 1))} : R.d < 5 /\ Put(E("unsq", <<i>>, <<a>>, <<>>), <<Unsqueeze(R, a)>>)
     \/ k = 4 /\ R.d = Q.d /\ Put(E("cat", <<i, j>>, <<0>>, <<>>), <<CatAxis(<<R, Q>>, 0)>>)
     \/ k = 5 /\ R.d = Q.d /\ \E a \in {RandomElement(1..(R.d - 1))} : SameBefore(<<R, Q>>, a) /\ Put(E("cat", <<i, j>>, <<a>>, <<>>), <<CatAxis(<<R, Q>>, a)>>)
     \/ k = 6 /\ R.d = Q.d /\ R.d < 5 /\ \E a \in {RandomElement(0..(R.d - 2))} : SameBefore(<<R, Q>>, a) /\ Put(E("stack", <<i, j>>, <<a>>, <<>>), <<StackAxis(<<R, Q>>, a)>>)
     \/ k = 7 /\ R.d > 2 /\ \E a \in {RandomElement(1..(R.d - 1))}, b \in {RandomElement(0..1)} : Put(E("unstack", <<i>>, <<a, b>>, <<>>), Unstack(R, a, b = 1))
     \/ k = 8 /\ \E a \in {RandomElement(0..(R.d - 2))} : Put(E("rmempty", <<i>>, <<a>>, <<>>), <<Subset(R, a, NonEmpty(R, a))>>)
     \/ k = 9 /\ \E a \in {RandomElement(0..(R.d - 1))} : \E p \in {[x \in 1..25 |-> RandomElement({0, 1, 1})]} : LET q == SubSeq(p, 1, TotSize(R, a)) IN
                 Put(E("subset", <<i>>, <<a>>, <<q>>), <<Subset(R, a, q)>>)
     \/ k = 10 /\ R.d > 2 /\ Put(E("mktrans", <<i>>, <<>>, <<>>), <<MakeTransposable(R)>>)
     \/ k = 11 /\ Transposable(R) /\ Put(E("trans", <<i>>, <<>>, <<>>), <<Transpose(R)>>)
     \/ k = 12 /\ (\A x \in {Values(Q)[y] : y \in 1..Len(Values(Q))} : x < Len(R.v)) /\ R.d + Q.d <= 5 /\ Put(E("idxr", <<i, j>>, <<0>>, <<>>), <<IndexRagged(R, Q)>>)
Next == Len(hist) < Ops /\ (IF Len(hist) < 2 THEN Fresh ELSE Act)
Emit == Len(hist) < Ops \/ PrintT("@@H " \o ToJson(hist))
=============================================================================
