--------------------------------- MODULE T24 ---------------------------------
(* Recorded histories of hash tables (one caller, and several under controlled schedules), task pools and semaphores.                *)
(* The state is the table: m the set of [k, v], at the places seen since the last move.             *)
EXTENDS TraceBase, K2Conc
Cl(b, name) == IF b THEN {} ELSE {name}
T24Init == [m |-> {}, at |-> {}]
Put(m, k, v) == {e \in m : e.k # k} \cup {[k |-> k, v |-> v]}
After(m, o) == IF o.op = "del" THEN {e \in m : e.k # o.k} ELSE IF Then(Absent, o) # Absent THEN Put(m, o.k, o.v) ELSE m
\* several callers: what is stored afterwards is what the finds at the end (by nobody else's side) see
Final(log) == {[k |-> log[i].k, v |-> log[i].out] : i \in {i \in DOMAIN log : log[i].th = -2 /\ log[i].ok = 1}}
TFailing(ev, s) ==
  CASE ev.op = "New" ->
         IF ev.legal = 0 THEN Cl(ev.ok = 0, "New:Accepted")
         ELSE Cl(ev.ok = 1, "New:Refused") \cup Cl(ev.ok = 0 \/ ev.got = ev.want, "New:Sizes")
    [] ev.op = "Do" -> LET o == ev.log[1] IN
         IF o.op = "del" THEN Cl(ev.end = "ok", "Do:End")
         ELSE Cl(ev.end = "ok", "Do:End") \cup Cl(Means(ValueIn(s.m, o.k), o), "Do:" \o o.op) \cup
              Cl(OnePlace(Places(ev.log) \cup s.at), "Do:Place")
    [] ev.op = "Move" -> Cl(ev.ok = 1, "Move:Refused") \cup Cl(ev.ok = 0 \/ ev.got = ev.want, "Move:Sizes")
    [] ev.op = "Empty" -> Cl(ev.ok = (IF s.m = {} THEN 1 ELSE 0), "Empty:Check") \cup Cl((ev.used = 0) <=> (s.m = {}), "Empty:Used")
    [] ev.op = "Threads" -> Cl(ev.end = "ok", "Threads:End") \cup Cl(ev.end # "ok" \/ Linearizable(s.m, ev.log), "Threads:Linearizable") \cup
                            Cl(OnePlace(Places(ev.log) \cup s.at), "Threads:Place")
    [] ev.op = "Deletes" -> Cl(ev.end = "ok", "Deletes:End")
    [] ev.op = "Pool" ->
         LET child(k) == k + 256 IN
         Cl(ev.end = "ok", "Pool:End") \cup Cl(ev.n < 1 \/ ev.size = ev.n, "Pool:Size") \cup Cl(ev.size >= 1, "Pool:SomeThread") \cup
         Cl(ev.end # "ok" \/ EachOnce(ev.log), "Pool:EachOnce") \cup Cl(WaitsEnough(ev.log, child), "Pool:WaitsEnough") \cup
         Cl(WithinSize(ev.log, ev.size), "Pool:WithinSize") \cup Cl(ev.end # "ok" \/ \A i \in DOMAIN ev.log : ev.log[i].t1 >= 0, "Pool:Unfinished")
    [] ev.op = "Sem" ->
         Cl(NeverTooMany(ev.log, ev.count), "Sem:TooMany") \cup
         Cl(IF ev.enough = 1 THEN ev.end = "ok" ELSE ev.end = "deadlock" /\ Stuck(ev.log, ev.count), "Sem:End")
    [] ev.op = "Bits" -> Cl(\A i \in 1..Len(ev.size) : ev.bits[i] <= 30 => (2 ^ ev.bits[i] > ev.size[i] /\ (ev.bits[i] <= 1 \/ 2 ^ (ev.bits[i] - 1) <= ev.size[i])), "Bits")
    [] OTHER -> {"Unknown"}
TStep(ev, s) ==
  CASE ev.op = "New" -> IF ev.ok = 1 THEN T24Init ELSE s
    [] ev.op = "Do" -> [m |-> After(s.m, ev.log[1]), at |-> IF ev.log[1].op = "del" THEN {} ELSE Places(ev.log) \cup s.at]
    [] ev.op = "Move" -> [m |-> IF ev.keep = 1 THEN s.m ELSE {}, at |-> {}]
    [] ev.op = "Threads" -> [m |-> Final(ev.log), at |-> {p \in s.at \cup Places(ev.log) : \E e \in Final(ev.log) : e.k = p[1]}]
    [] ev.op = "Deletes" -> [m |-> {e \in s.m : ~\E i \in DOMAIN ev.log : ev.log[i].k = e.k}, at |-> {}]
    [] OTHER -> s
=============================================================================
