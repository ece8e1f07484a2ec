------------------------------- MODULE MC23S ---------------------------------
(* Edit histories of symbol tables, for replay.                                                                                     *)
EXTENDS K2Symbols, TLC, Json
CONSTANTS Ops, MaxSym, MaxId
VARIABLES tabs, hist
Init == tabs = <<>> /\ hist = <<>>
Do(e, ts) == tabs' = ts /\ hist' = Append(hist, e)
Pick(S) == {RandomElement(S)}
New == \E e \in Pick({0, 0, 1}) : Do([op |-> "new", eps |-> e], Append(tabs, Fresh(e)))
Lines(t, k, s, i) == IF k = 1 THEN FileOf(t) ELSE IF k = 2 THEN Append(FileOf(t), <<s, i>>) ELSE IF Cardinality(t.m) > 1 THEN Tail(FileOf(t)) ELSE <<<<s, i>>>>
Load == \E k \in Pick(1..3), s \in Pick(0..MaxSym), i \in Pick(0..MaxId), t \in Pick(1..Len(tabs)) :
          LET ls == Lines(tabs[t], k, s, i) IN Do([op |-> "load", lines |-> ls, dflt |-> 0], IF LoadOk(ls, 0) THEN Append(tabs, LoadOf(ls, 0)) ELSE tabs)
Add == \E t \in Pick(1..Len(tabs)), s \in Pick(0..MaxSym), has \in Pick({0, 1}), i \in Pick((-1)..MaxId) :
         Do([op |-> "add", t |-> t, s |-> s, has |-> has, i |-> i], [tabs EXCEPT ![t] = AddTo(@, s, has, i)])
Merge == \E t \in Pick(1..Len(tabs)), u \in Pick(1..Len(tabs)) :
           Do([op |-> "merge", t |-> t, u |-> u], IF MergeOk(tabs[t], tabs[u]) THEN Append(tabs, MergeOf(tabs[t], tabs[u])) ELSE tabs)
Ask == \E t \in Pick(1..Len(tabs)), u \in Pick(1..Len(tabs)), o \in Pick({"getid", "getsym", "inid", "insym", "eq", "save", "copy"}), k \in Pick(0..MaxId) :
         Do(IF o \in {"eq"} THEN [op |-> o, t |-> t, u |-> u] ELSE [op |-> o, t |-> t, k |-> IF o \in {"getsym", "insym"} THEN k % (MaxSym + 1) ELSE k],
            IF o = "copy" THEN Append(tabs, tabs[t]) ELSE tabs)
Next == Len(hist) < Ops /\ (IF tabs = <<>> THEN New ELSE \E w \in Pick(1..10) : IF w <= 5 THEN Add ELSE IF w = 6 THEN New ELSE IF w = 7 THEN Load ELSE IF w <= 8 THEN Merge ELSE Ask)
Emit == Len(hist) < Ops \/ PrintT("@@H " \o ToJson(hist))
=============================================================================
