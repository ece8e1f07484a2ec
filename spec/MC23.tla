-------------------------------- MODULE MC23 ---------------------------------
(* All edit histories of a few symbol tables: the tables stay bijections with epsilon at 0, ids are never reused, rejected edits      *)
(* change nothing, files written and read give the same table.                                                                        *)
EXTENDS K2Symbols, TLC
CONSTANTS MaxSym, MaxId, MaxTabs, MaxSteps
VARIABLES tabs, last, steps
S == 0..MaxSym
I == 0..MaxId
Tick == steps < MaxSteps /\ steps' = steps + 1
vars == <<tabs, last, steps>>
Init == tabs = <<Fresh(0)>> /\ last = [op |-> "new", t |-> 1] /\ steps = 0
Add == Tick /\ \E t \in 1..Len(tabs), s \in S, has \in {0, 1}, i \in (-1)..MaxId :
         /\ (has = 1 \/ i = 0) /\ (has = 1 \/ NextId(tabs[t]) <= MaxId)
         /\ tabs' = [tabs EXCEPT ![t] = AddTo(tabs[t], s, has, i)]
         /\ last' = [op |-> "add", t |-> t, s |-> s, ok |-> AddOk(tabs[t], s, has, i), id |-> AddId(tabs[t], s, has, i)]
New == Tick /\ Len(tabs) < MaxTabs /\ \E e \in {0, 1} : tabs' = Append(tabs, Fresh(e)) /\ last' = [op |-> "new", t |-> Len(tabs) + 1]
Merge == Tick /\ Len(tabs) < MaxTabs /\ \E t, u \in 1..Len(tabs) :
           /\ tabs' = IF MergeOk(tabs[t], tabs[u]) THEN Append(tabs, MergeOf(tabs[t], tabs[u])) ELSE tabs
           /\ last' = [op |-> "merge", t |-> t, u |-> u, ok |-> MergeOk(tabs[t], tabs[u])]
Next == Add \/ New \/ Merge
Spec == Init /\ [][Next]_vars
Good == \A k \in 1..Len(tabs) : GoodTable(tabs[k])
ReadBack == \A k \in 1..Len(tabs) : LET f == FileOf(tabs[k]) IN LoadOk(f, 0) /\ LoadOf(f, 0) = tabs[k]
MergeBoth == last.op = "merge" /\ last.ok => LET r == tabs[Len(tabs)] IN tabs[last.t].m \subseteq r.m /\ tabs[last.u].m \subseteq r.m /\ GoodTable(r)
MergeRight == \A t, u \in 1..Len(tabs) : MergeOk(tabs[t], tabs[u]) <=> MergeOk(tabs[u], tabs[t])
AddAnswers == last.op = "add" /\ last.ok => <<last.id, last.s>> \in tabs[last.t].m
\* nothing is ever lost or renamed, other tables do not change
Monotone == [][\A k \in 1..Len(tabs) : tabs[k].m \subseteq tabs'[k].m /\ ((last'.op = "add" /\ last'.t = k /\ last'.ok) \/ tabs'[k] = tabs[k])]_vars
=============================================================================
