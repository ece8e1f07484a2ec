------------------------------- MODULE K2Conc --------------------------------
(* Concurrent maps, task pools and semaphores, judged by what their callers see.                                                     *)
(* An operation of a map is [th, op, k, v, ok, out, loc, t0, t1]: called at t0 by th, answered at t1; op is one of                   *)
(*   "ins" / "insn"  insert v under k unless k is present; ok = 1 when stored; "ins" asks for the value found otherwise (out)        *)
(*   "find"          ok = 1 and out = the value when present                                                                         *)
(*   "set" / "setk"  overwrite the value at a location this caller has just stored or found (ok = 0: there was none); "setk" names   *)
(*                   the key it found there (out)                                                                                    *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT Absent
Means(val, o) ==
  CASE o.op \in {"ins", "insn"} -> IF o.ok = 1 THEN val = Absent ELSE val # Absent /\ (o.op = "insn" \/ o.out = val)
    [] o.op = "find" -> IF o.ok = 1 THEN val = o.out ELSE val = Absent
    [] o.op = "set" -> o.ok = 0 \/ val # Absent
    [] o.op = "setk" -> o.ok = 0 \/ (val # Absent /\ o.out = o.k)
    [] OTHER -> FALSE
Then(val, o) == IF o.ok = 1 /\ o.op \in {"ins", "insn", "set", "setk"} THEN o.v ELSE val
\* one key: the operations on it can be put in an order that respects who finished before whom and explains every answer
RECURSIVE Linear(_, _)
Linear(val, S) ==
  \/ S = {}
  \/ \E o \in S : (\A p \in S : ~(p.t1 < o.t0)) /\ Means(val, o) /\ Linear(Then(val, o), S \ {o})
OpsOn(log, k) == {log[i] : i \in {i \in DOMAIN log : log[i].k = k}}
KeysOf(log) == {log[i].k : i \in DOMAIN log}
\* m: the set of [k, v] before the operations
ValueIn(m, k) == IF \E e \in m : e.k = k THEN (CHOOSE e \in m : e.k = k).v ELSE Absent
Linearizable(m, log) == \A k \in KeysOf(log) : Linear(ValueIn(m, k), OpsOn(log, k))
\* every key is in one place, different keys in different places
Places(log) == {<<log[i].k, log[i].loc>> : i \in {i \in DOMAIN log : log[i].loc >= 0}}
OnePlace(P) == \A a, b \in P : (a[1] = b[1]) <=> (a[2] = b[2])
\* ---------------------------------------------------------------- task pools
\* log of [op, k, t0, t1]: "sub" task k handed in, "run" task k runs, "wait" a wait for all tasks, "gone" the pool is destroyed; t1 = -1 when unfinished
Sel(log, o) == {log[i] : i \in {i \in DOMAIN log : log[i].op = o}}
RunsOf(log, k) == {i \in DOMAIN log : log[i].op = "run" /\ log[i].k = k}
EachOnce(log) == /\ \A i \in DOMAIN log : log[i].op = "sub" => Cardinality(RunsOf(log, log[i].k)) = 1
                 /\ \A r \in Sel(log, "run") : \E s \in Sel(log, "sub") : s.k = r.k /\ s.t0 < r.t0
\* what a wait that was called at t has to wait for: tasks handed in before, and those they hand in themselves
Covered(log, t, child(_)) == LET A == {s.k : s \in {s \in Sel(log, "sub") : s.t1 >= 0 /\ s.t1 < t}} IN A \cup {s.k : s \in {s \in Sel(log, "sub") : \E a \in A : s.k = child(a)}}
DoneBy(log, k, t) == \E r \in Sel(log, "run") : r.k = k /\ r.t1 >= 0 /\ r.t1 < t
WaitsEnough(log, child(_)) == \A w \in Sel(log, "wait") \cup Sel(log, "gone") : w.t1 >= 0 => \A k \in Covered(log, w.t0, child) : DoneBy(log, k, w.t1)
AtOnce(log, t) == Cardinality({r \in Sel(log, "run") : r.t0 <= t /\ (r.t1 < 0 \/ t < r.t1)})
WithinSize(log, n) == \A r \in Sel(log, "run") : AtOnce(log, r.t0) <= n
\* ---------------------------------------------------------------- semaphores
\* log of "acq" and "rel"; count: the initial number of permits
Released(log, t) == Cardinality({i \in DOMAIN log : log[i].op = "rel" /\ log[i].t0 <= t})
Acquired(log) == {i \in DOMAIN log : log[i].op = "acq" /\ log[i].t1 >= 0}
NeverTooMany(log, count) == \A i \in Acquired(log) : Cardinality({j \in Acquired(log) : log[j].t1 <= log[i].t1}) <= count + Released(log, log[i].t1)
Stuck(log, count) == Cardinality(Acquired(log)) = count + Cardinality(Sel(log, "rel")) /\ \A r \in Sel(log, "rel") : r.t1 >= 0
=============================================================================
