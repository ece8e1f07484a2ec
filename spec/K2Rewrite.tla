------------------------------ MODULE K2Rewrite ------------------------------
(* Structural rewrites as relations between an automaton F, a result C and   *)
(* the arc map m (positions into F, 0 = inserted arc).                       *)
EXTENDS K2Attr

Arcs1(F) == 1..NArcs(F)
\* the state correspondence induced by the arc map: pairs <<state of C, state of F>>
StatePairs(F, C, m) ==
  {<<Src(C, k), Src(F, m[k])>> : k \in {j \in Arcs1(C) : m[j] # 0}} \cup
  {<<Dst(C, k), Dst(F, m[k])>> : k \in {j \in Arcs1(C) : m[j] # 0}}
Bijective(P) == \A p, q \in P : (p[1] = q[1]) <=> (p[2] = q[2])
KeepArc(F, C, k, j) == Lab(C, k) = Lab(F, j) /\ Wt(C, k) = Wt(F, j)
ArcsOnce(m, S) ==        \* the mapped arcs are exactly S, each once
  {m[k] : k \in {j \in 1..Len(m) : m[j] # 0}} = S /\
  Cardinality({j \in 1..Len(m) : m[j] # 0}) = Cardinality(S)

UsefulArcs(F) == LET u == Useful(F) IN {k \in Arcs1(F) : Src(F, k) \in u /\ Dst(F, k) \in u}

ConnectClauses(F, C, m) ==
  (IF ArcsOnce(m, UsefulArcs(F)) /\ \A k \in 1..Len(m) : m[k] # 0 THEN {} ELSE {"ConnectKeepsUsefulArcs"}) \cup
  (IF \A k \in 1..Len(m) : m[k] # 0 /\ KeepArc(F, C, k, m[k]) THEN {} ELSE {"ArcLabelScore"}) \cup
  (IF Bijective(StatePairs(F, C, m) \cup (IF F.n > 0 /\ C.n > 0 THEN {<<0, 0>>, <<Final(C), Final(F)>>} ELSE {}))
   THEN {} ELSE {"StatesPreserved"}) \cup
  (IF (NonEmptyLang(F) /\ C.n # Cardinality(Useful(F))) \/ (~NonEmptyLang(F) /\ C.n # 0)
   THEN {"ConnectKeepsUsefulStates"} ELSE {})

TopSortClauses(F, C, m) ==
  (IF C.n = F.n /\ ArcsOnce(m, Arcs1(F)) /\ \A k \in 1..Len(m) : m[k] # 0 THEN {} ELSE {"AllArcsKept"}) \cup
  (IF \A k \in 1..Len(m) : m[k] # 0 /\ KeepArc(F, C, k, m[k]) THEN {} ELSE {"ArcLabelScore"}) \cup
  (IF Bijective(StatePairs(F, C, m) \cup (IF F.n > 0 /\ C.n > 0 THEN {<<0, 0>>, <<Final(C), Final(F)>>} ELSE {}))
   THEN {} ELSE {"StatesPreserved"}) \cup
  (IF \A k \in Arcs1(C) : Src(C, k) <= Dst(C, k) THEN {} ELSE {"TopologicalOrder"})

ArcSortClauses(F, C, m) ==
  (IF C.n = F.n /\ ArcsOnce(m, Arcs1(F)) /\ \A k \in 1..Len(m) : m[k] # 0 THEN {} ELSE {"AllArcsKept"}) \cup
  (IF \A k \in 1..Len(m) : m[k] # 0 /\ KeepArc(F, C, k, m[k]) /\ Src(C, k) = Src(F, m[k]) /\ Dst(C, k) = Dst(F, m[k])
   THEN {} ELSE {"ArcsUnchanged"}) \cup
  (IF \A k \in 1..(NArcs(C) - 1) : Src(C, k) = Src(C, k + 1) =>
        U32(Lab(C, k)) < U32(Lab(C, k + 1)) \/ (Lab(C, k) = Lab(C, k + 1) /\ Dst(C, k) <= Dst(C, k + 1))
   THEN {} ELSE {"SortedByLabelThenDest"})

AddLoopsClauses(F, C, m) ==
  (IF C.n = F.n /\ ArcsOnce(m, Arcs1(F)) THEN {} ELSE {"AllArcsKept"}) \cup
  (IF \A k \in 1..Len(m) : m[k] # 0 => KeepArc(F, C, k, m[k]) /\ Src(C, k) = Src(F, m[k]) /\ Dst(C, k) = Dst(F, m[k])
   THEN {} ELSE {"ArcsUnchanged"}) \cup
  (IF \A k \in 1..Len(m) : m[k] = 0 => Src(C, k) = Dst(C, k) /\ Lab(C, k) = 0 /\ Wt(C, k) = 0
   THEN {} ELSE {"InsertedAreEpsilonLoops"}) \cup
  (IF C.n = F.n /\ \A s \in 0..(F.n - 2) : Cardinality({k \in 1..Len(m) : m[k] = 0 /\ Src(C, k) = s}) = 1
   THEN {} ELSE {"OneLoopPerState"}) \cup
  (IF F.n > 0 /\ \E k \in 1..Len(m) : m[k] = 0 /\ Src(C, k) = F.n - 1 THEN {"FinalHasNoLoop"} ELSE {}) \cup
  (IF \A i, j \in 1..Len(m) : (i < j /\ m[i] # 0 /\ m[j] # 0) => m[i] < m[j] THEN {} ELSE {"ArcOrderKept"})

IsLoop(F, k) == Lab(F, k) = 0 /\ Src(F, k) = Dst(F, k)
RmLoopsClauses(F, C, m) ==
  (IF C.n = F.n THEN {} ELSE {"StatesPreserved"}) \cup
  (IF ArcsOnce(m, {k \in Arcs1(F) : ~IsLoop(F, k)}) /\ \A k \in 1..Len(m) : m[k] # 0 THEN {} ELSE {"OnlySelfLoopsRemoved"}) \cup
  (IF \A k \in 1..Len(m) : m[k] # 0 /\ KeepArc(F, C, k, m[k]) /\ Src(C, k) = Src(F, m[k]) /\ Dst(C, k) = Dst(F, m[k])
   THEN {} ELSE {"ArcsUnchanged"})

(* expansion of arcs into chains.  V(k): the symbol sequences of source arc k *)
(* (one per expanded attribute), W(k): the values of result arc k.            *)
Inner(C, m, s) == s # Final(C) /\ s # 0 /\ (\E k \in Arcs1(C) : Src(C, k) = s) /\ \A k \in Arcs1(C) : Src(C, k) = s => m[k] = 0
RECURSIVE ChainFrom(_, _, _, _)
ChainFrom(C, m, k, fuel) ==
  IF fuel = 0 \/ ~Inner(C, m, Dst(C, k)) THEN <<k>>
  ELSE LET nx == CHOOSE j \in Arcs1(C) : Src(C, j) = Dst(C, k) IN <<k>> \o ChainFrom(C, m, nx, fuel - 1)
ExpandClauses(F, C, m, nattr, V(_, _), W(_, _)) ==
  LET first == {k \in Arcs1(C) : m[k] # 0}
      inner == {s \in States(C) : Inner(C, m, s)}
      ch == [k \in first |-> ChainFrom(C, m, k, NArcs(C))]
      last(k) == ch[k][Len(ch[k])]
      P == {<<Src(C, k), Src(F, m[k])>> : k \in first} \cup {<<Dst(C, last(k)), Dst(F, m[k])>> : k \in first} IN
  (IF ArcsOnce(m, Arcs1(F)) THEN {} ELSE {"EverySourceArcOnce"}) \cup
  (IF \A s \in inner : Cardinality({k \in Arcs1(C) : Src(C, k) = s}) = 1 /\ Cardinality({k \in Arcs1(C) : Dst(C, k) = s}) = 1
   THEN {} ELSE {"ChainShape"}) \cup
  (IF C.n = F.n + Cardinality(inner) /\ Bijective(P \cup (IF F.n > 0 /\ C.n > 0 THEN {<<0, 0>>, <<Final(C), Final(F)>>} ELSE {}))
      /\ (\A p \in P : p[1] \notin inner) /\ SumSeq([k \in 1..NArcs(C) |-> 1]) = SumSeq([k \in 1..NArcs(C) |-> IF k \in first THEN Len(ch[k]) ELSE 0])
   THEN {} ELSE {"StatesPreserved"}) \cup
  (IF \A k \in first : SelectSeq([j \in 1..Len(ch[k]) |-> Lab(C, ch[k][j])], LAMBDA x : x # 0 /\ x # -1) =
                       SelectSeq(<<Lab(F, m[k])>>, LAMBDA x : x # 0 /\ x # -1)
   THEN {} ELSE {"PathLabel"}) \cup
  (IF \A k \in first : SumSeq([j \in 1..Len(ch[k]) |-> Wt(C, ch[k][j])]) = Wt(F, m[k]) THEN {} ELSE {"PathScore"}) \cup
  (IF \A k \in first : \A i \in 1..nattr :
        NoneSeq([j \in 1..Len(ch[k]) |-> W(i, ch[k][j])]) = NoneSeq(V(i, m[k]))
   THEN {} ELSE {"PathSymbols"}) \cup
  (IF \A k \in Arcs1(C) : \A i \in 1..nattr : Lab(C, k) = -1 => W(i, k) = -1 THEN {} ELSE {"FinalSymbols"})
=============================================================================
