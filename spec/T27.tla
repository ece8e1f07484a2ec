--------------------------------- MODULE T27 ---------------------------------
(* Recorded programs over batches, against what the same operations give for   *)
(* each element alone.                                                          *)
EXTENDS TraceBase, K2Batch
Cl(b, name) == IF b THEN {} ELSE {name}
Abs(a) == IF a < 0 THEN -a ELSE a
T27Init == [table |-> <<>>, regs |-> <<>>]
Known(s, e) == \E k \in 1..Len(s.table) : s.table[k].id = e[1] /\ s.table[k].h = e[2]
Alone(s, e) == s.table[CHOOSE k \in 1..Len(s.table) : s.table[k].id = e[1] /\ s.table[k].h = e[2]].rec
SameValues(u, v) == Len(u) = Len(v) /\ \A k \in 1..Len(u) : u[k] = v[k] \/ (Abs(u[k]) < 100000000 /\ Abs(v[k]) < 100000000 /\ Abs(u[k] - v[k]) <= 1)
RecF(got, want) ==
  Cl(got.n = want.n /\ got.a = want.a, "Automaton") \cup
  Cl(got.n = want.n /\ got.a = want.a => got.x = want.x, "Attributes") \cup
  Cl(SameValues(got.v, want.v), "Values")
\* what an arc carries
Extra(r, k) == [q \in 1..Len(r.x) |-> IF k <= Len(r.x[q]) THEN r.x[q][k] ELSE <<>>]
\* what can be done from a state, without the numbers of states and the order of arcs (self-loops marked, not followed)
RECURSIVE Future(_, _, _)
Future(r, s, d) == IF d = 0 THEN {} ELSE
  {<<r.a[k][3], r.a[k][4], Extra(r, k), IF r.a[k][2] = s THEN {<<"loop">>} ELSE {<<"to">>} \cup {<<"then", z>> : z \in Future(r, r.a[k][2], d - 1)}>> : k \in {j \in 1..Len(r.a) : r.a[j][1] = s}}
Bare(r) == [k \in 1..Len(r.a) |-> <<r.a[k][3], r.a[k][4], Extra(r, k)>>]
SameBag(u, v) == Len(u) = Len(v) /\ \A y \in {u[k] : k \in 1..Len(u)} : Cardinality({k \in 1..Len(u) : u[k] = y}) = Cardinality({k \in 1..Len(v) : v[k] = y})
LooseF(got, want, last) ==
  Cl(got.n = want.n, "States") \cup Cl(SameBag(Bare(got), Bare(want)), "Arcs") \cup
  Cl((got.a = want.a /\ got.x = want.x) \/ Future(got, 0, got.n + 1) = Future(want, 0, want.n + 1), "Structure") \cup
  (IF last = "tot" THEN Cl(SameValues(got.v, want.v), "Values") ELSE Cl(Len(got.v) = Len(want.v), "Values"))
\* the elements the event must show
Els(ev, s) ==
  CASE ev.op = "load" -> LoadOf(ev.kind, ev.ids)
    [] ev.op = "gen" -> LoadOf(ev.kind, ev.ids)
    [] ev.op = "apply" -> ApplyOf(s.regs[ev.r], ev.f)
    [] ev.op = "ask" -> ApplyOf(s.regs[ev.r], ev.f)
    [] ev.op = "pick" -> PickOf(s.regs[ev.r], ev.ix)
    [] ev.op = "join" -> JoinOf(s.regs[ev.r], s.regs[ev.s])
    [] OTHER -> <<>>
Ops == {"load", "gen", "apply", "ask", "pick", "join"}
TFailing(ev, s) ==
  IF ev.op = "alone" THEN {}
  ELSE IF ev.op \notin Ops THEN {"UnknownEvent"}
  ELSE LET E == Els(ev, s) IN
    IF Len(ev.out) # Len(E) THEN {"NumberOfElements"}
    ELSE UNION {IF Known(s, E[i]) THEN (IF Loose(E[i][2]) THEN LooseF(ev.out[i], Alone(s, E[i]), E[i][2][Len(E[i][2])]) ELSE RecF(ev.out[i], Alone(s, E[i]))) ELSE {"NotComputed"} : i \in 1..Len(E)} \cup Cl(ev.same = 1, "OperandUnchanged")
TStep(ev, s) ==
  IF ev.op = "alone" THEN [s EXCEPT !.table = ev.table]
  ELSE IF ev.op \in {"load", "apply", "pick", "join"} THEN [s EXCEPT !.regs = Append(@, Els(ev, s))] ELSE s
=============================================================================
