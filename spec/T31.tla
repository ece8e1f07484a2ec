--------------------------------- MODULE T31 ---------------------------------
(* Recorded transducer searches of the C++ library.                           *)
EXTENDS TraceBase, K2Search
Cl(b, name) == IF b THEN {} ELSE {name}
TFailing(ev, s) ==
  LET P == ev.P  F(i) == SubSeq(ev.frames[i], 1, ev.lens[i]) IN
  IF Len(ev.out) # Len(ev.lens) THEN {"Grouping"}
  ELSE IF ev.op = "greedy" THEN UNION {Cl(ev.out[i] \in Greedy(P, F(i)), "Greedy") : i \in 1..Len(ev.lens)}
  ELSE UNION {LET b == Beam(P, ev.k, F(i)) IN Cl(b.amb \/ ev.out[i] \in Most(P, b.D, ev.lens[i] * Log2K(ev.K)), "Beam") : i \in 1..Len(ev.lens)}
TStep(ev, s) == s
=============================================================================
