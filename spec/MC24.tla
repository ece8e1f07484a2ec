--------------------------------- MODULE MC24 --------------------------------
(* The open-addressed table of k2/csrc/hash.h with several callers, in steps of one memory access or one compare-and-swap.  A slot   *)
(* holds a key and a value; with Wide the two are written one after the other (Hash64), otherwise at once.                           *)
(* Hist asks for the programs and the order of the steps of finished behaviours to be printed.                                       *)
EXTENDS K2Conc, TLC, Json
CONSTANTS NB, NKeys, NThreads, MaxProg, Wide, WaitForValue, Hist
VARIABLES slot, val, prog, pc, cur, log, clock, order
vars == <<slot, val, prog, pc, cur, log, clock, order>>
Keys == IF NKeys = 2 THEN {0, 4} ELSE IF NKeys = 3 THEN {0, 4, 1} ELSE {0, 4, 1, 5, 2}   \* 0 and 4, 1 and 5 start at the same slot
Free == -1                                    \* no key / no value yet
Th == 1..NThreads
Xor(a, b) == LET bit(x, i) == (x \div (2 ^ i)) % 2 IN bit(a, 0) + bit(b, 0) - 2 * bit(a, 0) * bit(b, 0) + 2 * (bit(a, 1) + bit(b, 1) - 2 * bit(a, 1) * bit(b, 1)) + 4 * (bit(a, 2) + bit(b, 2) - 2 * bit(a, 2) * bit(b, 2))
Half == NB \div 2
Inc(k) == LET x == Xor(k \div Half, k) IN IF x % 2 = 0 THEN x + 1 ELSE x
Slots == 0..(NB - 1)
Bucket(k, n) == (k + n * Inc(k)) % NB
Tick == clock' = clock + 1
OpKinds == {"ins", "find", "set"}
ProgramsOn(t, K) == UNION {[1..n -> {[op |-> "ins", k |-> k, v |-> t] : k \in K} \cup {[op |-> "find", k |-> k, v |-> 0] : k \in K} \cup {[op |-> "set", k |-> 0, v |-> t + 10]}] : n \in 1..MaxProg}
Programs(t) == ProgramsOn(t, Keys)
Sensible(p) == \A i \in DOMAIN p : p[i].op = "set" => i > 1 /\ p[i - 1].op # "set"
Init ==
  /\ slot = [s \in Slots |-> Free] /\ val = [s \in Slots |-> Free]
  /\ IF Hist THEN prog = [t \in Th |-> <<>>]
     ELSE prog \in {f \in [Th -> UNION {{p \in Programs(t) : Sensible(p)} : t \in Th}] : \A t \in Th : f[t] \in Programs(t)}
  /\ pc = [t \in Th |-> [at |-> "idle", i |-> 1, n |-> 0, mine |-> Free, mk |-> 0]]
  /\ cur = [t \in Th |-> 0] /\ log = <<>> /\ clock = 0 /\ order = <<>>
Op(t) == prog[t][pc[t].i]
Key(t) == IF Op(t).op = "set" THEN pc[t].mk ELSE Op(t).k
B(t) == Bucket(Op(t).k, pc[t].n)
Has(t, at) == pc[t].at = at
Noted(t) == order' = IF Hist THEN Append(order, t) ELSE order
Answer(t, ok, out, loc) ==                    \* the operation of t ends
  /\ log' = [log EXCEPT ![cur[t]] = [@ EXCEPT !.ok = ok, !.out = out, !.loc = loc, !.t1 = clock + 1]]
  /\ pc' = [pc EXCEPT ![t] = [at |-> "idle", i |-> @.i + 1, n |-> 0, mine |-> IF ok = 1 /\ Op(t).op # "set" THEN loc ELSE Free, mk |-> Op(t).k]]
Call == /\ \E t \in Th : /\ Has(t, "idle") /\ pc[t].i <= Len(prog[t])
                         /\ cur' = [cur EXCEPT ![t] = Len(log) + 1]
                         /\ log' = Append(log, [th |-> t, op |-> Op(t).op, k |-> Key(t), v |-> Op(t).v, ok |-> 0, out |-> Absent, loc |-> -1, t0 |-> clock + 1, t1 |-> -1])
                         /\ pc' = [pc EXCEPT ![t].at = "step"]
                         /\ Noted(t)
        /\ UNCHANGED <<slot, val, prog>> /\ Tick
\* read a slot
Read == /\ \E t \in Th : /\ Has(t, "step") /\ Op(t).op # "set"
                         /\ IF slot[B(t)] = Op(t).k
                            THEN IF Wide THEN pc' = [pc EXCEPT ![t].at = "value"] /\ UNCHANGED log
                                 ELSE Answer(t, IF Op(t).op = "ins" THEN 0 ELSE 1, val[B(t)], B(t))
                            ELSE IF slot[B(t)] = Free
                            THEN IF Op(t).op = "find" THEN Answer(t, 0, Absent, -1) ELSE pc' = [pc EXCEPT ![t].at = "swap"] /\ UNCHANGED log
                            ELSE pc' = [pc EXCEPT ![t].n = @ + 1] /\ UNCHANGED log
                         /\ Noted(t)
        /\ UNCHANGED <<slot, val, prog, cur>> /\ Tick
\* read the value of a slot that has the key
Value == /\ \E t \in Th : /\ Has(t, "value") /\ (WaitForValue => val[B(t)] # Free)
                          /\ Answer(t, IF Op(t).op = "ins" THEN 0 ELSE 1, val[B(t)], B(t))
                          /\ Noted(t)
         /\ UNCHANGED <<slot, val, prog, cur>> /\ Tick
Swap == /\ \E t \in Th : /\ Has(t, "swap")
                         /\ IF slot[B(t)] = Free
                            THEN /\ slot' = [slot EXCEPT ![B(t)] = Op(t).k]
                                 /\ IF Wide THEN pc' = [pc EXCEPT ![t].at = "write"] /\ UNCHANGED <<log, val>>
                                    ELSE val' = [val EXCEPT ![B(t)] = Op(t).v] /\ Answer(t, 1, Absent, B(t))
                            ELSE /\ UNCHANGED <<slot, val>>
                                 /\ IF slot[B(t)] = Op(t).k
                                    THEN IF Wide THEN pc' = [pc EXCEPT ![t].at = "value"] /\ UNCHANGED log ELSE Answer(t, 0, val[B(t)], B(t))
                                    ELSE pc' = [pc EXCEPT ![t] = [@ EXCEPT !.at = "step", !.n = @ + 1]] /\ UNCHANGED log
                         /\ Noted(t)
        /\ UNCHANGED <<prog, cur>> /\ Tick
Write == /\ \E t \in Th : /\ Has(t, "write") /\ val' = [val EXCEPT ![B(t)] = Op(t).v] /\ Answer(t, 1, Absent, B(t)) /\ Noted(t)
         /\ UNCHANGED <<slot, prog, cur>> /\ Tick
SetValue == /\ \E t \in Th : /\ Has(t, "step") /\ Op(t).op = "set"
                             /\ IF pc[t].mine = Free THEN Answer(t, 0, Absent, -1) /\ UNCHANGED val
                                ELSE val' = [val EXCEPT ![pc[t].mine] = Op(t).v] /\ Answer(t, 1, Absent, pc[t].mine)
                             /\ Noted(t)
            /\ UNCHANGED <<slot, prog, cur>> /\ Tick
\* three random programs on a few of the keys, when behaviours are asked for
Pick(S) == {RandomElement(S)}
Choose == /\ Hist /\ \A t \in Th : prog[t] = <<>>
          /\ \E K \in Pick({K \in SUBSET Keys : Cardinality(K) \in 1..2}) :
             \E a \in Pick({p \in ProgramsOn(1, K) : Sensible(p)}), b \in Pick({p \in ProgramsOn(2, K) : Sensible(p)}), c \in Pick({p \in ProgramsOn(3, K) : Sensible(p)}) : prog' = <<a, b, c>>
          /\ UNCHANGED <<slot, val, pc, cur, log, clock, order>>
Next == Choose \/ Call \/ Read \/ Value \/ Swap \/ Write \/ SetValue
Finished == (~Hist \/ prog[1] # <<>>) /\ \A t \in Th : Has(t, "idle") /\ pc[t].i > Len(prog[t])
\* ---- what callers may rely on
OneSlotPerKey == \A a, b \in Slots : slot[a] = slot[b] /\ slot[a] # Free => a = b
Judged == Finished => Linearizable({}, log) /\ OnePlace(Places(log))
NoStop == Finished \/ ENABLED Next
Emit == ~Finished \/ ~Hist \/ PrintT("@@H " \o ToJson([prog |-> prog, order |-> order]))
=============================================================================
