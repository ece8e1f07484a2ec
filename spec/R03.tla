--------------------------------- MODULE R03 ---------------------------------
(* Recorded structural rewrites against the relations of K2Rewrite.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, K2Rewrite
Names(ev) == {"Attribute:x"}

Rel(op, F, C, m) ==
  CASE op = "connect" -> ConnectClauses(F, C, m)
    [] op = "top_sort" -> TopSortClauses(F, C, m)
    [] op = "arc_sort" -> ArcSortClauses(F, C, m)
    [] op = "add_epsilon_self_loops" -> AddLoopsClauses(F, C, m)
    [] op = "remove_epsilon_self_loops" -> RmLoopsClauses(F, C, m)
    [] OTHER -> {"UnknownOp"}

\* with dense secondary labels inversion only swaps the two columns
InvertDense(ev) ==
  LET n == NumArcs(ev.f)  I == Flat(ev.f)  O == Flat(ev.out.f) IN
  IF Len(O) # n \/ Len(ev.out.aux) # n \/ Len(ev.aux) # n THEN {"AllArcsKept"}
  ELSE IF \A i \in 1..Len(ev.f) : ev.out.f[i].n = ev.f[i].n
       THEN IF \A k \in 1..n : O[k][1] = I[k][1] /\ O[k][2] = I[k][2] /\ O[k][4] = I[k][4] /\
                               O[k][3] = ev.aux[k] /\ ev.out.aux[k] = I[k][3] THEN {} ELSE {"LabelsSwapped"}
       ELSE {"StatesPreserved"}

\* nattr expanded attributes; for invert the result's labels column holds the expanded symbols
Expand(ev) ==
  UNION {LET F == ev.f[i]  b == ArcOff(ev.f, i)  o == ArcOff(ev.out.f, i)
             C0 == ev.out.f[i]
             C == IF ev.op = "invert_ragged"
                  THEN [C0 EXCEPT !.a = [k \in 1..Len(C0.a) |-> [C0.a[k] EXCEPT ![3] = ev.out.aux[o + k]]]] ELSE C0
             m == Cut(ev.out.m, ev.out.f, ev.f, i)
         IN IF \E k \in 1..Len(m) : m[k] \notin 0..Len(F.a) THEN {"ArcMap"}
            ELSE ExpandClauses(F, C, m, Len(ev.rag),
                   LAMBDA a, k : ev.rag[a][b + k],
                   LAMBDA a, k : IF ev.op = "invert_ragged" THEN C0.a[k][3] ELSE ev.out.dense[a][o + k])
         : i \in 1..Len(ev.f)}

TFailing(ev, s) ==
  IF "err" \in DOMAIN ev THEN (IF ev.mayfail = 1 THEN {} ELSE {"Raised:" \o ev.err})
  ELSE IF Len(ev.out.f) # Len(ev.f) \/ ev.out.vec # ev.vec THEN {"BatchShape"}
  ELSE IF \E i \in 1..Len(ev.out.f) : ~ValidFsa(ev.out.f[i]) THEN {"ValidResult"}
  ELSE IF ev.mayfail = 1 THEN {"CyclicInputAccepted"}
  ELSE IF Len(ev.out.m) # NumArcs(ev.out.f) \/ ~MapInto(ev.out.m, NumArcs(ev.f)) THEN {"ArcMap"}
  ELSE (IF ev.out.same # 1 THEN {"ScoresAreArcScores"} ELSE {}) \cup
       AttrClauses(ev.attrs, ev.out.attrs, ev.out.m, NumArcs(ev.f)) \cup
       (IF ev.op \in {"expand", "invert_ragged"}
        THEN IF (ev.op = "expand" /\ \E a \in 1..Len(ev.rag) : Len(ev.out.dense[a]) # NumArcs(ev.out.f)) \/
                (ev.op = "invert_ragged" /\ Len(ev.out.aux) # NumArcs(ev.out.f)) THEN {"ExpandedCount"} ELSE Expand(ev)
        ELSE IF ev.op = "invert" THEN InvertDense(ev)
        ELSE UNION {LET m == Cut(ev.out.m, ev.out.f, ev.f, i) IN
                    IF \E k \in 1..Len(m) : m[k] \notin 0..Len(ev.f[i].a) THEN {"ArcMap"}
                    ELSE Rel(ev.op, ev.f[i], ev.out.f[i], m) : i \in 1..Len(ev.f)})
TStep(ev, s) == s
=============================================================================
