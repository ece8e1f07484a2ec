------------------------------- MODULE K2Batch -------------------------------
(* Batches as sequences of elements.  An element is known by what it was made  *)
(* from and by what has been done to it: <<id, history>>.  A batch operation    *)
(* does the same to every element and leaves their number and order alone;      *)
(* loading, choosing, and joining arrange elements.                             *)
EXTENDS Integers, Sequences, FiniteSets
LoadOf(kind, ids) == [i \in 1..Len(ids) |-> <<ids[i], <<kind>>>>]
ApplyOf(R, f) == [i \in 1..Len(R) |-> <<R[i][1], Append(R[i][2], f)>>]
PickOf(R, ix) == [i \in 1..Len(ix) |-> R[ix[i]]]
JoinOf(R, S) == R \o S
\* epsilon self-loops make an automaton cyclic until they are removed
Loops(h) == \E i \in 1..Len(h) : h[i] \in {"loops", "rmloops"} /\ \A j \in (i + 1)..Len(h) : h[j] # "noloops"
NeedsAcyclic == {"topsort", "rmeps", "rmloops", "det", "best", "prune", "meet", "tot", "post", "paths", "fwd"}
\* graphs with self-loops that stay
Cyclic(h) == h[1] \in {"ctc", "ctcmod", "lev"}
\* which of several algorithms removes epsilons depends on the whole batch: the order of the arcs of a state is open
Loose(h) == \E i \in 1..Len(h) : h[i] \in {"rmeps", "rmloops", "det"}
Renumbers == {"inv", "expand"}
Allowed(R, f) ==
  /\ f \in Renumbers => \A i \in 1..Len(R) : ~Loose(R[i][2])
  /\ f \in NeedsAcyclic => \A i \in 1..Len(R) : ~Loops(R[i][2]) /\ ~Cyclic(R[i][2])
Homogeneous(R) == \A i, j \in 1..Len(R) : R[i][2] = R[j][2]
Joinable(R, S) == Homogeneous(R \o S) /\ R # <<>> /\ S # <<>>
=============================================================================
