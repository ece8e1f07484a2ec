------------------------------- MODULE MC27S ---------------------------------
(* Programs over batches, for replay.                                           *)
EXTENDS K2Batch, TLC, Json
CONSTANTS Ops, Elements, MaxBatch
VARIABLES regs, hist
Init == regs = <<>> /\ hist = <<>>
Do(e, rs) == regs' = rs /\ hist' = Append(hist, e)
Pick(S) == {RandomElement(S)}
Kinds == {"fsa", "ctc", "ctcmod", "lev", "linear", "dense", "pruned"}
Steps == {"sort", "connect", "topsort", "rmeps", "det", "inv", "loops", "noloops", "best", "prune", "rev", "expand", "meet", "rmloops", "twice"}
Asks == {"tot", "post", "paths", "fwd"}
Gens == {"mi", "joint", "simple", "full", "pruned_loss", "ranges", "align", "ctc_loss"}
\* function literals are lazy: build the sequences one random element at a time
RECURSIVE Draw(_, _)
Draw(n, S) == IF n = 0 THEN <<>> ELSE <<RandomElement(S)>> \o Draw(n - 1, S)
Load == \E w \in Pick(1..10), n \in Pick(1..MaxBatch) :
          \E k \in Pick(IF w <= 7 THEN {"fsa"} ELSE Kinds), ids \in {Draw(n, 1..Elements)} :
            Do([op |-> "load", kind |-> k, ids |-> ids], Append(regs, LoadOf(k, ids)))
Gen == \E g \in Pick(Gens), n \in Pick(1..MaxBatch) : \E ids \in {Draw(n, 1..Elements)} : Do([op |-> "gen", kind |-> g, ids |-> ids], regs)
Instead(R) == IF \E i \in 1..Len(R) : Loops(R[i][2]) THEN "noloops" ELSE "sort"
Apply == \E r \in Pick(1..Len(regs)), f \in Pick(Steps) :
           IF Allowed(regs[r], f) THEN Do([op |-> "apply", r |-> r, f |-> f], Append(regs, ApplyOf(regs[r], f))) ELSE Do([op |-> "apply", r |-> r, f |-> Instead(regs[r])], Append(regs, ApplyOf(regs[r], Instead(regs[r]))))
Ask == \E r \in Pick(1..Len(regs)), f \in Pick(Asks) :
         IF Allowed(regs[r], f) THEN Do([op |-> "ask", r |-> r, f |-> f], regs) ELSE Do([op |-> "apply", r |-> r, f |-> Instead(regs[r])], Append(regs, ApplyOf(regs[r], Instead(regs[r]))))
Choose == \E r \in Pick(1..Len(regs)), n \in Pick(0..MaxBatch), how \in Pick({"index", "stack"}) :
            IF Len(regs[r]) = 0 \/ (n = 0 /\ how = "stack") THEN Do([op |-> "pick", r |-> r, how |-> "index", ix |-> <<>>], Append(regs, <<>>))
            ELSE \E ix \in {Draw(n, 1..Len(regs[r]))} : Do([op |-> "pick", r |-> r, how |-> how, ix |-> ix], Append(regs, PickOf(regs[r], ix)))
Join == \E r \in Pick(1..Len(regs)), s \in Pick(1..Len(regs)) :
          LET t == IF Joinable(regs[r], regs[s]) THEN s ELSE r IN
          Do([op |-> "join", r |-> r, s |-> t], Append(regs, JoinOf(regs[r], regs[t])))
Next == Len(hist) < Ops /\ (IF regs = <<>> THEN Load ELSE \E w \in Pick(1..16) :
          IF w <= 8 THEN Apply ELSE IF w <= 9 THEN Load ELSE IF w <= 11 THEN Ask ELSE IF w <= 13 THEN Choose ELSE IF w <= 14 THEN Join ELSE Gen)
Emit == Len(hist) < Ops \/ PrintT("@@H " \o ToJson(hist))
=============================================================================
