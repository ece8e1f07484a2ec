--------------------------------- MODULE T23 ---------------------------------
(* Recorded histories of symbol tables; every event shows all tables.                                                                *)
EXTENDS TraceBase, K2Symbols
Cl(b, name) == IF b THEN {} ELSE {name}
T23Init == <<>>
Has(ev, s) == ("t" \in DOMAIN ev => ev.t \in DOMAIN s) /\ ("u" \in DOMAIN ev => ev.u \in DOMAIN s)
Allowed(ev, s) ==
  CASE ~Has(ev, s) -> FALSE
    [] ev.op = "load" -> ev.bad = 0 /\ LoadOk(ev.lines, ev.dflt)
    [] ev.op = "add" -> AddOk(s[ev.t], ev.s, ev.has, ev.i)
    [] ev.op = "merge" -> MergeOk(s[ev.t], s[ev.u])
    [] ev.op = "getid" -> ev.k \in SymIds(s[ev.t])
    [] ev.op = "getsym" -> ev.k \in Syms(s[ev.t])
    [] OTHER -> TRUE
Made(ev, s) ==                               \* the tables afterwards
  IF ~Allowed(ev, s) THEN s
  ELSE CASE ev.op = "new" -> Append(s, Fresh(ev.eps))
         [] ev.op = "load" -> Append(s, LoadOf(ev.lines, ev.dflt))
         [] ev.op = "add" -> [s EXCEPT ![ev.t] = AddTo(@, ev.s, ev.has, ev.i)]
         [] ev.op = "merge" -> Append(s, MergeOf(s[ev.t], s[ev.u]))
         [] ev.op = "copy" -> Append(s, s[ev.t])
         [] OTHER -> s
Answer(ev, s) ==
  CASE ev.op = "add" -> AddId(s[ev.t], ev.s, ev.has, ev.i)
    [] ev.op = "getid" -> SymOf(s[ev.t], ev.k)
    [] ev.op = "getsym" -> IdOf(s[ev.t], ev.k)
    [] ev.op = "inid" -> (IF ev.k \in SymIds(s[ev.t]) THEN 1 ELSE 0)
    [] ev.op = "insym" -> (IF ev.k \in Syms(s[ev.t]) THEN 1 ELSE 0)
    [] ev.op = "eq" -> (IF SameTable(s[ev.t], s[ev.u]) THEN 1 ELSE 0)
    [] OTHER -> 0
TFailing(ev, s) ==
  LET ok == Allowed(ev, s)  m == Made(ev, s) IN
  IF ~Has(ev, s) THEN {"Operand"}              \* only after an earlier disagreement
  ELSE IF ok /\ ev.ok = 0 THEN {ev.op \o ":Refused"}
  ELSE IF ~ok /\ ev.ok = 1 THEN {ev.op \o ":Accepted"}
  ELSE Cl(Len(ev.all) = Len(m) /\ \A k \in 1..Len(m) : ev.all[k] = DumpOf(m[k]), ev.op \o ":Tables") \cup
       Cl(ev.res = (IF ok THEN Answer(ev, s) ELSE 0), ev.op \o ":Answer") \cup
       Cl(ev.op # "save" \/ ev.file = FileOf(s[ev.t]), "save:File")
TStep(ev, s) == Made(ev, s)
=============================================================================
