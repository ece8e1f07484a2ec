------------------------------- MODULE K2Wfsa -------------------------------
(* Weighted automata as k2 represents them and what they denote.            *)
(* F = [n |-> number of states, a |-> sequence of arcs <<src,dst,label,w>>, *)
(*      c |-> number of arcs leaving each state].  State 0 is the start,    *)
(* state n-1 the final state, n = 0 the empty automaton; arcs are grouped   *)
(* by source state; the label is -1 exactly on arcs into the final state.   *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

NegInf == -1000000000
PosInf == 1000000000
Odd(x) == x >= 2000000000          \* the recorder's sentinels: not an integer, NaN

Max2(x, y) == IF x > y THEN x ELSE y
Min2(x, y) == IF x < y THEN x ELSE y
Plus(x, y) == IF x = NegInf \/ y = NegInf THEN NegInf ELSE x + y
SumSeq(s) == FoldLeft(LAMBDA x, y : x + y, 0, s)
U32(x) == IF x = -1 THEN 2147483647 ELSE x      \* labels compare as unsigned
NArcs(F) == Len(F.a)
States(F) == 0..(F.n - 1)
Final(F) == F.n - 1
Src(F, k) == F.a[k][1]
Dst(F, k) == F.a[k][2]
Lab(F, k) == F.a[k][3]
Wt(F, k) == F.a[k][4]

(* well-formed record: what must hold before anything else is evaluated      *)
WellFormed(F) ==
  /\ F.n \in Nat /\ (F.n = 0 => F.a = <<>>)
  /\ Len(F.c) = F.n
  /\ \A s \in 1..F.n : F.c[s] >= 0
  /\ SumSeq(F.c) = Len(F.a)
  /\ \A k \in 1..Len(F.a) : Src(F, k) \in 0..(F.n - 1) /\ Dst(F, k) \in 0..(F.n - 1)
  /\ \A k \in 1..(Len(F.a) - 1) : Src(F, k) <= Src(F, k + 1)
  /\ \A s \in 1..F.n :        \* counts agree with the source column
       LET lo == SumSeq(SubSeq(F.c, 1, s - 1))
       IN F.c[s] > 0 => Src(F, lo + 1) = s - 1 /\ Src(F, lo + F.c[s]) = s - 1

(* the format rule for automata accepted by the library *)
ValidFsa(F) ==
  /\ WellFormed(F)
  /\ F.n # 1
  /\ F.n > 0 => F.c[F.n] = 0
  /\ \A k \in 1..Len(F.a) : (Lab(F, k) = -1) <=> (Dst(F, k) = Final(F))

Offs(F) ==   \* Offs(F)[s] = number of arcs leaving states < s, s in 0..n
  LET acc == FoldLeft(LAMBDA x, y : Append(x, x[Len(x)] + y), <<0>>, F.c)
  IN [s \in 0..F.n |-> acc[s + 1]]
OutOf(F, offs, s) == (offs[s] + 1)..offs[s + 1]      \* arc positions leaving s

RECURSIVE ReachFrom(_, _, _)
ReachFrom(E, S, frontier) ==    \* E : set of <<from, to>>
  LET new == {e[2] : e \in {x \in E : x[1] \in frontier}} \ S
  IN IF new = {} THEN S ELSE ReachFrom(E, S \cup new, new)
Edges(F) == {<<Src(F, k), Dst(F, k)>> : k \in 1..NArcs(F)}
Accessible(F) == IF F.n = 0 THEN {} ELSE ReachFrom(Edges(F), {0}, {0})
CoAccessible(F) ==
  IF F.n = 0 THEN {} ELSE ReachFrom({<<e[2], e[1]>> : e \in Edges(F)}, {Final(F)}, {Final(F)})
Useful(F) == Accessible(F) \cap CoAccessible(F)
NonEmptyLang(F) == F.n > 0 /\ 0 \in CoAccessible(F)

(* ------------------------------------------------------------- languages *)
StartVec(F) == [s \in States(F) |-> IF s = 0 THEN 0 ELSE NegInf]
ZeroVec(F) == [s \in States(F) |-> NegInf]

\* one pass of label x from vector V (best weight of being in each state)
StepLab(F, V, x) ==
  FoldLeft(LAMBDA v, a : IF a[3] = x /\ V[a[1]] # NegInf
                         THEN [v EXCEPT ![a[2]] = Max2(@, V[a[1]] + a[4])] ELSE v,
           ZeroVec(F), F.a)
RECURSIVE EpsClose(_, _, _)
EpsClose(F, V, k) ==
  LET W == FoldLeft(LAMBDA v, a : IF a[3] = 0 /\ v[a[1]] # NegInf
                         THEN [v EXCEPT ![a[2]] = Max2(@, v[a[1]] + a[4])] ELSE v,
                    V, F.a)
  IN IF k = 0 \/ W = V THEN W ELSE EpsClose(F, W, k - 1)
AcceptW(F, V) == StepLab(F, V, -1)[Final(F)]
Dead(V) == \A s \in DOMAIN V : V[s] = NegInf

RECURSIVE LangFrom(_, _, _, _, _, _)
LangFrom(F, V, str, L, Sigma, eps) ==
  LET w == AcceptW(F, V)
      here == IF w = NegInf THEN {} ELSE {<<str, w>>}
  IN IF Len(str) = L THEN here
     ELSE here \cup UNION { LET V1 == StepLab(F, V, x)
                                V2 == IF eps /\ ~Dead(V1) THEN EpsClose(F, V1, F.n) ELSE V1
                            IN IF Dead(V2) THEN {} ELSE LangFrom(F, V2, Append(str, x), L, Sigma, eps)
                            : x \in Sigma }
(* {<<string, best weight>>} of all accepted strings of length at most L;    *)
(* label 0 is the empty string when eps, an ordinary symbol otherwise.        *)
Lang(F, L, Sigma, eps) ==
  IF F.n = 0 THEN {}
  ELSE LET V == IF eps THEN EpsClose(F, StartVec(F), F.n) ELSE StartVec(F)
       IN LangFrom(F, V, <<>>, L, Sigma \ (IF eps THEN {0} ELSE {}), eps)

Labels(F) == {Lab(F, k) : k \in 1..NArcs(F)} \ {-1}

(* ------------------------------------------------------------------ paths *)
(* All successful paths of an acyclic automaton, as sequences of arc         *)
(* positions.                                                                *)
RECURSIVE PathsFrom(_, _, _, _)
PathsFrom(F, offs, s, p) ==
  IF s = Final(F) THEN {p}
  ELSE UNION {PathsFrom(F, offs, Dst(F, k), Append(p, k)) : k \in OutOf(F, offs, s)}
Paths(F) == IF F.n = 0 THEN {} ELSE PathsFrom(F, Offs(F), 0, <<>>)
\* paths with at most B arcs (any automaton)
RECURSIVE BPathsFrom(_, _, _, _, _)
BPathsFrom(F, offs, s, p, B) ==
  IF s = Final(F) THEN {p}
  ELSE IF Len(p) = B THEN {}
  ELSE UNION {BPathsFrom(F, offs, Dst(F, k), Append(p, k), B) : k \in OutOf(F, offs, s)}
BPaths(F, B) == IF F.n = 0 THEN {} ELSE BPathsFrom(F, Offs(F), 0, <<>>, B)

PathW(F, p) == FoldLeft(LAMBDA x, k : x + Wt(F, k), 0, p)
PathLabs(F, p) == SelectSeq([i \in 1..Len(p) |-> Lab(F, p[i])], LAMBDA x : x # 0 /\ x # -1)
=============================================================================
