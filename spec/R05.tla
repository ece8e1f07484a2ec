--------------------------------- MODULE R05 ---------------------------------
(* Flags reported for automata and batches, before and after operations, and *)
(* what the validating constructors accept.                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, K2Props

Stored(F) == F.n >= 0 /\ Len(F.c) = F.n /\ SumSeq(F.c) = Len(F.a) /\ \A s \in 1..F.n : F.c[s] >= 0

\* which flags the record determines (structure broken: only the robust ones)
Judged(S) == IF \A i \in 1..Len(S) : LET r == RowOf(S[i]) IN
                  \A k \in 1..NArcs(S[i]) : Src(S[i], k) = r[k] /\ Dst(S[i], k) \in 0..(S[i].n - 1)
             THEN AllFlags ELSE Robust
\* a one-state automaton without arcs is start and final state at once: left open
Open(S) == IF \E i \in 1..Len(S) : S[i].n = 1 THEN {"ACCESSIBLE", "COACCESSIBLE", "VALID"} ELSE {}
Diff(S, have) ==
  LET want == BatchFlags(S)  j == Judged(S) \ Open(S)
  IN {"Flag:" \o x : x \in {y \in j : (y \in want) # (y \in have)}}

ToSet_(s) == {s[i] : i \in 1..Len(s)}
FlagsEv(ev) ==
  IF \E i \in 1..Len(ev.out.f) : ~Stored(ev.out.f[i]) THEN {"Stored"}
  ELSE LET have == ToSet_(ev.out.flags) IN
       Diff(ev.out.f, have) \cup
       (IF ToSet_(ev.out.names) # have THEN {"PropertyString"} ELSE {})

\* constructor from an arc list (rows as given, in order)
RowsOk(A) == \A k \in 1..(Len(A) - 1) : A[k][1] <= A[k + 1][1]
FinalOf(A) == LET fs == {A[k][2] : k \in {j \in 1..Len(A) : A[j][3] = -1}} IN
  IF fs # {} THEN CHOOSE x \in fs : TRUE
  ELSE 1 + Max({A[k][1] : k \in 1..Len(A)} \cup {A[k][2] : k \in 1..Len(A)} \cup {-1})   \* no final arcs: after all states that have arcs
ListValid(A) ==
  LET fin == FinalOf(A) IN
  /\ fin > 0 \/ A = <<>>
  /\ RowsOk(A)
  /\ \A k \in 1..Len(A) : /\ A[k][1] \in 0..(fin - 1) /\ A[k][2] \in 0..fin
                          /\ A[k][3] >= -1 /\ ((A[k][3] = -1) <=> (A[k][2] = fin))
CtorEv(ev) ==
  IF ~ListValid(ev.arcs) THEN {"MalformedAccepted"}
  ELSE LET F == ev.out.f[1] IN
       IF Len(ev.out.f) # 1 \/ ~Stored(F) THEN {"Stored"}
       ELSE IF F.n = (IF ev.arcs = <<>> THEN 0 ELSE FinalOf(ev.arcs) + 1) /\ F.a = ev.arcs /\ WellFormed(F) THEN {} ELSE {"ConstructedArcs"}

TFailing(ev, s) ==
  IF ev.op = "ctor" THEN
    (IF "err" \in DOMAIN ev THEN (IF ListValid(ev.arcs) THEN {"ValidRefused:" \o ev.err} ELSE {}) ELSE CtorEv(ev))
  ELSE IF ev.op = "batchctor" THEN   \* stored batches: accepted exactly when every element is valid
    LET ok == \A i \in 1..Len(ev.f) : IsValid(ev.f[i], RowOf(ev.f[i])) IN
    (IF "err" \in DOMAIN ev THEN (IF ok THEN {"ValidRefused:" \o ev.err} ELSE {})
     ELSE (IF ok THEN {} ELSE {"MalformedAccepted"}))
  ELSE IF ev.op = "setlabels" THEN   \* -1 exactly on final arcs afterwards, other labels as assigned
    (IF \A k \in 1..Len(ev.want) : ev.out.lab[k] = (IF ev.isfinal[k] = 1 THEN -1
                                                   ELSE IF ev.want[k] = -1 THEN 0 ELSE ev.want[k])
     THEN {} ELSE {"LabelsAssigned"})
  ELSE IF "err" \in DOMAIN ev THEN {"Raised:" \o ev.err}
  ELSE FlagsEv(ev)
TStep(ev, s) == s
=============================================================================
