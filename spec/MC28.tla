-------------------------------- MODULE MC28 --------------------------------
(* Design model for C28: the sampling equivalence test as a transition       *)
(* system - comparison of label sets, comparison of totals, then one sampled *)
(* path at a time against both automata - over all pairs of automata with    *)
(* three or four states and at most K arcs of a fixed universe, for every    *)
(* choice of paths.  Raw = TRUE samples paths with their own scores and      *)
(* epsilons (the defect F61); Sound then fails in the log semiring.          *)
EXTENDS K2Equiv
CONSTANTS K, Mode, Eps, H, Raw
WL == IF Mode = "trop" THEN <<0, -1, -3>> ELSE <<1, 2, 3>>
AllArcs == << <<0,1,0,1>>, <<0,1,1,2>>, <<0,2,0,1>>, <<0,2,1,1>>, <<0,3,-1,2>>, <<1,2,0,2>>, <<1,2,2,1>>, <<1,3,-1,1>>, <<2,3,-1,2>>, <<2,3,-1,1>> >>
Mk(S) == [n |-> 4, a |-> [k \in 1..Cardinality(S) |-> LET a == AllArcs[SetToSortSeq(S, <)[k]] IN <<a[1], a[2], a[3], WL[a[4]]>>],
          c |-> [s \in 1..4 |-> Cardinality({i \in S : AllArcs[i][1] = s - 1})]]
Fsas == {Mk(S) : S \in {T \in SUBSET (1..Len(AllArcs)) : Cardinality(T) <= K}}
VARIABLES A, B, phase, left, answer
vars == <<A, B, phase, left, answer>>
Init == A \in Fsas /\ B \in Fsas /\ phase = "labels" /\ left = {} /\ answer = "none"
WA == StrWeights(A, Mode, Paths(A), Eps)
WB == StrWeights(B, Mode, Paths(B), Eps)
Empty(F) == ~NonEmptyLang(F)
Labels2 == LET d == (UsefulLabels(A) \ UsefulLabels(B)) \cup (UsefulLabels(B) \ UsefulLabels(A)) IN
           IF Eps THEN d \ {0} = {} ELSE d = {}
CompareLabels ==
  /\ phase = "labels" /\ answer = "none"
  /\ answer' = IF Empty(A) /\ Empty(B) THEN "yes" ELSE IF Empty(A) \/ Empty(B) \/ ~Labels2 THEN "no" ELSE "none"
  /\ phase' = "totals" /\ UNCHANGED <<A, B, left>>
CompareTotals ==
  /\ phase = "totals" /\ answer = "none"
  /\ answer' = IF Tot(A, Mode) = Tot(B, Mode) THEN "none" ELSE "no"
  /\ phase' = "paths"
  /\ left' = {<<1, p>> : p \in Paths(A)} \cup {<<2, p>> : p \in Paths(B)}
  /\ UNCHANGED <<A, B>>
Chain(F, p) ==
  LET all == [i \in 1..Len(p) |-> <<Lab(F, p[i]), IF Raw THEN Wt(F, p[i]) ELSE One(Mode)>>] IN
  IF Raw \/ ~Eps THEN all ELSE SelectSeq(all, LAMBDA x : x[1] # 0)
Examine ==
  /\ phase = "paths" /\ answer = "none" /\ left # {}
  /\ \E x \in left :
       LET F == IF x[1] = 1 THEN A ELSE B
           c == Chain(F, x[2])
           ca == Against(A, Mode, Eps, c, 0, 1)  cb == Against(B, Mode, Eps, c, 0, 1)
           in == InBeam(Mode, ca, Tot(A, Mode), H) \/ InBeam(Mode, cb, Tot(B, Mode), H)
       IN /\ answer' = IF in /\ ca # cb THEN "no" ELSE "none"
          /\ left' = left \ {x}
  /\ UNCHANGED <<A, B, phase>>
Next == CompareLabels \/ CompareTotals \/ Examine
Spec == Init /\ [][Next]_vars
Finished == phase = "paths" /\ answer = "none" /\ left = {}
Sound == answer = "no" => Differing(WA, WB, Mode, 0) # {}
Complete == (answer = "yes" \/ Finished) => Checked(WA, WB, Mode, H, Differing(WA, WB, Mode, 0)) = {}
=============================================================================
