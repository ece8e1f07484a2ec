------------------------------- MODULE K2Props -------------------------------
(* The property flags of an automaton, as their definitions say.             *)
EXTENDS K2Wfsa

\* labels are compared as unsigned 32 bit numbers: negative ones come last
LabLt(x, y) == IF (x < 0) = (y < 0) THEN x < y ELSE y < 0
LabLe(x, y) == x = y \/ LabLt(x, y)

RowOf(F) ==   \* the state under which each arc is stored
  FoldLeft(LAMBDA x, s : x \o [i \in 1..F.c[s] |-> s - 1], <<>>, [s \in 1..F.n |-> s])

\* rows: the state each arc is stored under
IsValid(F, rows) ==
  \A k \in 1..NArcs(F) :
    /\ Src(F, k) = rows[k] /\ rows[k] # F.n - 1
    /\ Dst(F, k) \in 0..(F.n - 1)
    /\ Lab(F, k) >= -1
    /\ (Lab(F, k) = -1) <=> (Dst(F, k) = F.n - 1)
Follows(F, rows, k) == k > 1 /\ rows[k] = rows[k - 1]       \* not the first of its state
ArcLe(F, j, k) == LabLt(Lab(F, j), Lab(F, k)) \/ (Lab(F, j) = Lab(F, k) /\ Dst(F, j) <= Dst(F, k))
EpsFree(F) == \A k \in 1..NArcs(F) : Lab(F, k) # 0
TopSorted(F) == \A k \in 1..NArcs(F) : Dst(F, k) >= Src(F, k)
TopAcyclic(F) == \A k \in 1..NArcs(F) : Dst(F, k) > Src(F, k)
ArcSorted(F, rows) == \A k \in 1..NArcs(F) : Follows(F, rows, k) => ArcLe(F, k - 1, k)
SortedDet(F, rows) == \A k \in 1..NArcs(F) : Follows(F, rows, k) => LabLt(Lab(F, k - 1), Lab(F, k))
MaybeAcc(F) == NArcs(F) > 0 /\
  \A s \in 1..(F.n - 1) : \E k \in 1..NArcs(F) : Dst(F, k) = s /\ Src(F, k) # s
MaybeCoacc(F) == NArcs(F) > 0 /\
  \A s \in 0..(F.n - 2) : \E k \in 1..NArcs(F) : Src(F, k) = s /\ Dst(F, k) # s

Flag(b, name) == IF b THEN {name} ELSE {}
Flags(F) ==
  LET rows == RowOf(F) IN
  Flag(IsValid(F, rows), "VALID") \cup Flag(NArcs(F) > 0, "NONEMPTY") \cup
  Flag(TopSorted(F), "TOPSORTED") \cup Flag(TopAcyclic(F), "TOPSORTED_AND_ACYCLIC") \cup
  Flag(ArcSorted(F, rows), "ARC_SORTED") \cup Flag(SortedDet(F, rows), "ARC_SORTED_AND_DETERMINISTIC") \cup
  Flag(EpsFree(F), "EPSILON_FREE") \cup
  Flag(F.n = 0 \/ MaybeAcc(F), "ACCESSIBLE") \cup Flag(F.n = 0 \/ MaybeCoacc(F), "COACCESSIBLE")
AllFlags == {"VALID", "NONEMPTY", "TOPSORTED", "TOPSORTED_AND_ACYCLIC", "ARC_SORTED",
             "ARC_SORTED_AND_DETERMINISTIC", "EPSILON_FREE", "ACCESSIBLE", "COACCESSIBLE"}
BatchFlags(S) == {x \in AllFlags : \A i \in 1..Len(S) : x \in Flags(S[i])}
\* flags that are defined even for malformed automata
Robust == {"VALID", "NONEMPTY", "EPSILON_FREE"}
=============================================================================
