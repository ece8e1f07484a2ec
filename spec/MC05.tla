-------------------------------- MODULE MC05 --------------------------------
(* Design model for C05: the flags computed by one local scan over arcs, each *)
(* compared with its predecessor only, as the implementation does it, for all *)
(* arc lists up to K arcs over N states (malformed ones included).  At the    *)
(* end the scan must agree with the definitions, and the local flags must     *)
(* mean what users read into them on graphs.                                  *)
EXTENDS K2Props
CONSTANTS N, K
LABS == {-2, -1, 0, 1}

VARIABLES F, rows, i, neg, entered, left, done
vars == <<F, rows, i, neg, entered, left, done>>

ArcSet == {<<s, d, x, 0>> : s \in 0..(N - 1), d \in 0..(N - 1), x \in LABS}
Seqs == UNION {[1..m -> ArcSet] : m \in 0..K}
Grouped(A) == \A k \in 1..(Len(A) - 1) : A[k][1] <= A[k + 1][1]
Init ==
  /\ \E A \in Seqs : Grouped(A) /\
       F = [n |-> N, a |-> A, c |-> [s \in 1..N |-> Cardinality({k \in 1..Len(A) : A[k][1] = s - 1})]]
  /\ rows = RowOf(F) /\ i = 1 /\ neg = {} /\ entered = {} /\ left = {} /\ done = FALSE

Scan ==
  /\ i <= NArcs(F)
  /\ LET s == Src(F, i)  d == Dst(F, i)  x == Lab(F, i)  j == i - 1 IN
     /\ neg' = neg
          \cup Flag(rows[i] # s \/ rows[i] = F.n - 1 \/ x < -1 \/ ((x = -1) # (d = F.n - 1)), "VALID")
          \cup Flag(d <= s, "TOPSORTED_AND_ACYCLIC") \cup Flag(d < s, "TOPSORTED")
          \cup Flag(x = 0, "EPSILON_FREE")
          \cup (IF i > 1 /\ rows[j] = rows[i]
                THEN Flag(LabLe(x, Lab(F, j)), "ARC_SORTED_AND_DETERMINISTIC")
                     \cup Flag(LabLt(x, Lab(F, j)) \/ (x = Lab(F, j) /\ d < Dst(F, j)), "ARC_SORTED")
                ELSE {})
     /\ entered' = entered \cup (IF d # s THEN {d} ELSE {}) \cup (IF i = 1 THEN {0} ELSE {})
     /\ left' = left \cup (IF d # s THEN {s} ELSE {}) \cup (IF i = 1 THEN {F.n - 1} ELSE {})
  /\ i' = i + 1 /\ UNCHANGED <<F, rows, done>>
Finish ==
  /\ i = NArcs(F) + 1 /\ ~done /\ done' = TRUE
  /\ neg' = neg \cup Flag(NArcs(F) = 0, "NONEMPTY")
                \cup Flag(entered # States(F), "ACCESSIBLE")
                \cup Flag(left # States(F), "COACCESSIBLE")
  /\ UNCHANGED <<F, rows, i, entered, left>>
Next == Scan \/ Finish

ScanAgrees == done => AllFlags \ neg = Flags(F)
Has(x) == done /\ x \notin neg
ValidMeansFormat == Has("VALID") => ValidFsa(F)
AcyclicMeansNoCycle == Has("TOPSORTED_AND_ACYCLIC") =>
  \A s \in States(F) : LET out == {e[2] : e \in {x \in Edges(F) : x[1] = s}} IN s \notin ReachFrom(Edges(F), out, out)
DetMeansDet == Has("ARC_SORTED_AND_DETERMINISTIC") =>
  \A j, k \in 1..NArcs(F) : j # k /\ rows[j] = rows[k] => Lab(F, j) # Lab(F, k)
\* the connectedness flags never miss a connected automaton
ConnectedHasFlags == done /\ NArcs(F) > 0 /\ Accessible(F) = States(F) /\ CoAccessible(F) = States(F)
                     => {"ACCESSIBLE", "COACCESSIBLE"} \cap neg = {}
=============================================================================
