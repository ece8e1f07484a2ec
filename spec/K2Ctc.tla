-------------------------------- MODULE K2Ctc --------------------------------
(* The CTC alignment model.  x: one symbol per frame, 0 = blank; y: labels.   *)
(* An alignment gives every frame the blank or a position of y: the positions  *)
(* come in order, each has at least one frame, and (standard) two equal        *)
(* neighbours in y are separated by a blank.                                  *)
EXTENDS K2Wfsa
\* declaratively: z[t] = 0 or the position emitted at frame t
IsAlignment(z, y, mod) ==
  /\ \A t \in DOMAIN z : z[t] \in 0..Len(y)
  /\ {z[t] : t \in DOMAIN z} \ {0} = 1..Len(y)
  /\ \A t, u \in DOMAIN z : t < u /\ z[t] # 0 /\ z[u] # 0 => z[t] <= z[u]
  /\ \A t, u \in DOMAIN z : t < u /\ z[t] = z[u] /\ z[t] # 0 => \A v \in t..u : z[v] = z[t]
  /\ mod \/ \A t \in DOMAIN z : (t + 1) \in DOMAIN z /\ z[t] # 0 /\ z[t + 1] = z[t] + 1 => y[z[t]] # y[z[t + 1]]
Spells(z, y) == [t \in DOMAIN z |-> IF z[t] = 0 THEN 0 ELSE y[z[t]]]
Alignments(x, y, mod) == {z \in [1..Len(x) -> 0..Len(y)] : IsAlignment(z, y, mod) /\ Spells(z, y) = x}
\* remove repeats, then blanks
Collapse(x) == SelectSeq([t \in 1..Len(x) |-> IF t > 1 /\ x[t] = x[t - 1] THEN 0 ELSE x[t]], LAMBDA v : v # 0)
(* operationally: states 0..2|y|, even = in a blank, odd = in a symbol        *)
Sym(y, s) == IF s % 2 = 0 THEN 0 ELSE y[(s + 1) \div 2]
\* <<from, to, does a new label start>>
CtcArcs(y, mod) ==
  {<<s, s, FALSE>> : s \in 0..(2 * Len(y))} \cup {<<s, s + 1, s % 2 = 0>> : s \in 0..(2 * Len(y) - 1)} \cup
  {<<s, s + 2, TRUE>> : s \in {q \in 1..(2 * Len(y) - 3) : q % 2 = 1 /\ (mod \/ Sym(y, q) # Sym(y, q + 2))}}
Ends(y) == {s \in {2 * Len(y), 2 * Len(y) - 1} : s >= 0}
\* wt(t, arc): weight of using the arc on frame t (0 = impossible)
StartV(y) == [s \in 0..(2 * Len(y)) |-> IF s = 0 THEN 1 ELSE 0]
StepV(y, E, V, w(_)) == FoldSet(LAMBDA e, U : [U EXCEPT ![e[2]] = @ + V[e[1]] * w(e)], [s \in DOMAIN V |-> 0], E)
StepB(y, E, V, w(_)) == FoldSet(LAMBDA e, U : [U EXCEPT ![e[1]] = @ + V[e[2]] * w(e)], [s \in DOMAIN V |-> 0], E)
StepM(y, E, V, w(_)) == FoldSet(LAMBDA e, U : [U EXCEPT ![e[2]] = Max2(@, V[e[1]] * w(e))], [s \in DOMAIN V |-> 0], E)
StepMB(y, E, V, w(_)) == FoldSet(LAMBDA e, U : [U EXCEPT ![e[1]] = Max2(@, V[e[2]] * w(e))], [s \in DOMAIN V |-> 0], E)
TotV(y, V) == FoldSet(LAMBDA s, m : m + V[s], 0, Ends(y))
\* p[t][c + 1]: probability of c on frame t; pen: emissions on frame t weigh 2^pen[t]
Pow2(k) == FoldLeft(LAMBDA m, i : 2 * m, 1, [i \in 1..k |-> i])
Wgt(y, p, pen, t, e) == p[t][Sym(y, e[2]) + 1] * (IF e[3] THEN Pow2(pen[t]) ELSE 1)
FwdSeq(y, mod, p, pen) == LET E == CtcArcs(y, mod) IN FoldLeft(LAMBDA Z, t : Append(Z, StepV(y, E, Z[Len(Z)], LAMBDA e : Wgt(y, p, pen, t, e))), <<StartV(y)>>, [t \in 1..Len(p) |-> t])
Total(y, mod, p, pen) == LET Z == FwdSeq(y, mod, p, pen) IN TotV(y, Z[Len(Z)])
\* the part of the total whose frame t is symbol c
TotalWith(y, mod, p, pen, t, c) == Total(y, mod, [p EXCEPT ![t] = [i \in DOMAIN @ |-> IF i = c + 1 THEN @[i] ELSE 0]], pen)
\* beam of a lattice: arcs (t, e) on a path within a factor (2 K + 1) / 2 of the best
KeptArcs(y, mod, p, pen, K) ==
  LET E == CtcArcs(y, mod)  T == Len(p)
      Z == FoldLeft(LAMBDA S, t : Append(S, StepM(y, E, S[Len(S)], LAMBDA e : Wgt(y, p, pen, t, e))), <<StartV(y)>>, [t \in 1..T |-> t])
      B == FoldLeft(LAMBDA S, t : <<StepMB(y, E, S[1], LAMBDA e : Wgt(y, p, pen, t, e))>> \o S, <<[s \in 0..(2 * Len(y)) |-> IF s \in Ends(y) THEN 1 ELSE 0]>>,
                    [i \in 1..T |-> T + 1 - i])
      best == FoldSet(LAMBDA s, m : Max2(m, Z[T + 1][s]), 0, Ends(y))
      ok(v) == v > 0 /\ v * (2 * K + 1) >= 2 * best IN
  [arcs |-> [t \in 1..T |-> {e \in E : ok(Z[t][e[1]] * Wgt(y, p, pen, t, e) * B[t + 1][e[2]])}],
   ends |-> {s \in Ends(y) : ok(Z[T + 1][s])}]
KeptV(y, R, p, pen) == FoldLeft(LAMBDA S, t : StepV(y, R.arcs[t], S, LAMBDA e : Wgt(y, p, pen, t, e)), StartV(y), [t \in 1..Len(p) |-> t])
KeptTotal(y, R, p, pen) == LET V == KeptV(y, R, p, pen) IN FoldSet(LAMBDA s, m : m + V[s], 0, R.ends)
BeamTotal(y, mod, p, pen, K) == KeptTotal(y, KeptArcs(y, mod, p, pen, K), p, pen)
Only(p, t, c) == [p EXCEPT ![t] = [i \in DOMAIN @ |-> IF i = c + 1 THEN @[i] ELSE 0]]
=============================================================================
