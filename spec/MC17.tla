-------------------------------- MODULE MC17 --------------------------------
(* All pairs of short sequences: the recurrence is the cheapest edit script,   *)
(* and matching the two graphs arc by arc (no pair of self loops) finds it.    *)
EXTENDS K2Lev
CONSTANTS V, MaxR, MaxH
VARIABLES r, h
Costs == {<<1001, 1001>>, <<1000, 1000>>, <<600, 1300>>, <<2000, 700>>, <<500, 500>>}
Init == r = <<>> /\ h = <<>>
AddRef == Len(r) < MaxR /\ h = <<>> /\ \E s \in 1..V : r' = Append(r, s) /\ h' = h
AddHyp == Len(h) < MaxH /\ \E s \in 1..V : h' = Append(h, s) /\ r' = r
Next == AddRef \/ AddHyp
\* all scripts, built front to back
RECURSIVE Scripts(_, _)
Scripts(x, y) ==
  IF x = <<>> /\ y = <<>> THEN {<<>>} ELSE
  (IF x = <<>> THEN {} ELSE {<<<<Head(x), 0>>>> \o z : z \in Scripts(Tail(x), y)}) \cup
  (IF y = <<>> THEN {} ELSE {<<<<0, Head(y)>>>> \o z : z \in Scripts(x, Tail(y))}) \cup
  (IF x = <<>> \/ y = <<>> THEN {} ELSE {<<<<Head(x), Head(y)>>>> \o z : z \in Scripts(Tail(x), Tail(y))})
MinOf(S) == CHOOSE m \in S : \A v \in S : m <= v
\* best score in the product of the two graphs; pairs of self loops are left out
Prod(c) ==
  LET A == Graph(r, Half - c[1])  B == Graph(h, Half - c[2])
      E == {<<i, j>> \in (1..Len(A.a)) \X (1..Len(B.a)) : A.a[i][3] = B.a[j][3] /\ ~(A.a[i][1] = A.a[i][2] /\ B.a[j][1] = B.a[j][2])}
      relax(S) == FoldSet(LAMBDA e, T : LET a == A.a[e[1]]  b == B.a[e[2]] IN
                    IF S[<<a[1], b[1]>>] = NegInf THEN T ELSE [T EXCEPT ![<<a[2], b[2]>>] = Max2(@, S[<<a[1], b[1]>>] + a[4] + b[4])], S, E)
      S0 == [p \in (0..(A.n - 1)) \X (0..(B.n - 1)) |-> IF p = <<0, 0>> THEN 0 ELSE NegInf]
      S == FoldLeft(LAMBDA T, i : relax(T), S0, [i \in 1..(A.n + B.n) |-> i])
  IN S[<<A.n - 1, B.n - 1>>]
Correct ==
  LET Z == Scripts(r, h) IN
  /\ \A z \in Z : IsScript(z, r, h)
  /\ Dist(r, h) = MinOf({Edits(z) : z \in Z})
  /\ \A c \in Costs : LET w == Wd(r, h, c[1], c[2]) IN w = MinOf({ScriptCost(z, c[1], c[2]) : z \in Z}) /\ Prod(c) = -w
  \* a slightly dearer indel does not change the number of edits
  /\ \A z \in Z : ScriptCost(z, 1001, 1001) = Wd(r, h, 1001, 1001) => Edits(z) = Dist(r, h)
  /\ Dist(r, h) <= Max2(Len(r), Len(h)) /\ Dist(r, h) = Dist(h, r) /\ (Dist(r, h) = 0 <=> r = h)
=============================================================================
