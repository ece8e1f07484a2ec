------------------------------- MODULE MC15S ---------------------------------
(* Histories of transducer decoding sessions: a session attaches an ordered   *)
(* set of streams, advances some frames, is flushed, and is sometimes asked    *)
(* for the lattices of the frames so far.                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Streams, Sessions
VARIABLES len, hist
Orders == {s \in UNION {[1..n -> 1..Streams] : n \in 1..Streams} : \A i, j \in DOMAIN s : i # j => s[i] # s[j]}
Init == len = [i \in 1..Streams |-> 0] /\ hist = <<>>
Session ==
  /\ Len(hist) < Sessions
  /\ \E s \in {RandomElement(Orders)}, k \in {RandomElement(1..4)}, fmt \in {RandomElement(0..2)}, part \in {RandomElement(0..1)} :
       LET n2 == [i \in 1..Streams |-> len[i] + IF \E j \in DOMAIN s : s[j] = i THEN k ELSE 0] IN
       \E a \in {[j \in 1..Len(s) |-> IF RandomElement(1..2) = 1 THEN n2[s[j]] ELSE RandomElement(1..n2[s[j]])]} :
       /\ hist' = Append(hist, <<s, k, fmt, part, SubSeq(a, 1, Len(a))>>)
       /\ len' = n2
Next == Session
Emit == Len(hist) < Sessions \/ PrintT("@@H " \o ToJson(hist))
=============================================================================
