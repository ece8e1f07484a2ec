----------------------------- MODULE TraceBase -----------------------------
(* Skeleton of every trace specification.  TRACE_FILE holds one recorded     *)
(* history of the implementation per line (a sequence of events).  A state   *)
(* is (history, position, abstract state); the step from l to l+1 consumes   *)
(* one event.  Failing(ev, st) is the set of names of the clauses of the     *)
(* specification that the event violates in abstract state st (total: a      *)
(* verdict for every event); Step(ev, st) is the abstract state after it.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS Failing(_, _), Step(_, _), St0
VARIABLES tid, l, st

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)

TInit == tid \in 1..Len(Traces) /\ l = 1 /\ st = St0

Report(S) == IF S = {} THEN TRUE ELSE PrintT("@@F " \o ToJson(<<tid, l, S>>))

\* an exception or crash that the driver did not provide for
Unexpected(ev) == ev.op \in {"Raised", "Died"}

TNext ==
  /\ l <= Len(Traces[tid])
  /\ LET ev == Traces[tid][l] IN
       IF Unexpected(ev)
       THEN Report({ev.op \o ":" \o ev.err}) /\ st' = st
       ELSE Report(Failing(ev, st)) /\ st' = Step(ev, st)
  /\ l' = l + 1
  /\ tid' = tid
=============================================================================
