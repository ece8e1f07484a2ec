------------------------------- MODULE MC14S ---------------------------------
(* Histories of calls of the online decoder: a call decodes one chunk for     *)
(* every slot of the batch; a slot continues any saved state (0 = a new       *)
(* stream), also one that was continued before.  A slot with a shorter chunk   *)
(* is at its end.                                                             *)
EXTENDS Integers, Sequences, TLC, Json, Randomization
CONSTANTS Calls
VARIABLES width, ended, hist
Init == width \in 1..3 /\ ended = <<>> /\ hist = <<>>
Open == {0} \cup {h \in 1..Len(ended) : ended[h] = 0}
Late == IF Len(ended) = 0 THEN Open ELSE {h \in Open : h > Len(ended) - 2 * width}
Recent == IF Late = {} THEN {0} ELSE Late
Pick(i) ==
  LET mine == Len(ended) - width + i IN
  IF RandomElement(1..4) = 1 THEN RandomElement(Open)
  ELSE IF mine \in Open /\ RandomElement(1..3) > 1 THEN mine ELSE RandomElement(Recent)
\* each random choice is made once: \E over a singleton
Call ==
  /\ Len(hist) < Calls
  /\ \E L \in {RandomElement(1..4)}, cut \in {RandomElement(1..5)}, full \in {RandomElement(1..width)} :
     \E p1 \in {Pick(1)}, p2 \in {Pick(2)}, p3 \in {Pick(3)}, n1, n2, n3 \in 0..L :
     LET n == <<n1, n2, n3>>
         slots == [i \in 1..width |-> <<(<<p1, p2, p3>>)[i], n[i]>>] IN
     /\ \A i \in 1..3 : (cut # 1 \/ i = full \/ i > width) => n[i] = L
     /\ hist' = Append(hist, slots)
     /\ ended' = ended \o [i \in 1..width |-> IF n[i] < L THEN 1 ELSE 0]
  /\ UNCHANGED width
Next == Call
Emit == Len(hist) < Calls \/ PrintT("@@H " \o ToJson(<<width, hist>>))
=============================================================================
