--------------------------------- MODULE R15 ---------------------------------
(* Recorded sessions of the streaming transducer decoder.  The abstract state *)
(* holds, per stream, what is active, and the transitions kept on each frame. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, K2Rnnt
Cl(b, name) == IF b THEN {} ELSE {name}
T15Init == <<>>
Par(c) == [beam |-> c.beam, ms |-> c.ms, mc |-> c.mc, H |-> c.H]
New(H) == [A |-> StartAct(H), frames |-> <<>>, acts |-> <<>>, amb |-> FALSE]
\* a recorded row <<<<label, score>>, ..>> as a function
RowFn(r) == [x \in {e[1] : e \in ToSet(r)} |-> (CHOOSE e \in ToSet(r) : e[1] = x)[2]]
LpFn(sl) == [c \in ToSet(sl.ctx) |-> RowFn(sl.rows[CHOOSE i \in 1..Len(sl.ctx) : sl.ctx[i] = c])]
CtxOk(x, sl) == ToSet(sl.ctx) = CtxOf(x.A) /\ Len(sl.ctx) = Cardinality(CtxOf(x.A)) /\ Len(sl.rows) = Len(sl.ctx)
AdvanceF(s, ev) == UNION {LET x == s.st[sl.s] IN IF x.amb THEN {} ELSE Cl(CtxOk(x, sl), "Contexts") : sl \in ToSet(ev.slots)}
StepOne(s, x, sl) ==
  IF x.amb \/ ~CtxOk(x, sl) THEN [x EXCEPT !.amb = TRUE]
  ELSE LET S == Advance(Par(s.c), s.g[sl.s], x.A, LpFn(sl)) IN
       [A |-> S.A, frames |-> Append(x.frames, S.arcs), acts |-> Append(x.acts, DOMAIN x.A), amb |-> S.amb]
\* the identity <<frame, context, graph state>> of every lattice state, following the arcs from the start
Idents(G, H, O, k) ==
  FoldLeft(LAMBDA M, j : IF k[j] < 0 \/ Src(O, j) \notin DOMAIN M THEN M
                         ELSE LET p == M[Src(O, j)]  d == KDst(G, <<p[2], p[3]>>, k[j]) IN
                              (Dst(O, j) :> <<p[1] + 1, d[1], d[2]>>) @@ M, 0 :> <<0, StartCtx(H), 0>>, [j \in 1..Len(O.a) |-> j])
AOff(S, i) == SumSeq([j \in 1..(i - 1) |-> Len(S[j].a)])
SlotF(s, ev, i) ==
  LET sl == ev.slots[i]  G == s.g[sl.s]  x == s.st[sl.s]  O == ev.f[i]  c == s.c
      o == AOff(ev.f, i)  J == 1..Len(O.a)
      id == [j \in J |-> ev.ids[o + j]]
      \* -1: a final arc; 0: the termination symbol; else the graph arc
      k == [j \in J |-> IF Lab(O, j) = -1 THEN -1 ELSE IF id[j] = c.fill THEN 0 ELSE id[j]] IN
  IF ~WellFormed(O) \/ O.n < 2 THEN {"Format"}
  ELSE IF x.amb THEN {}
  ELSE IF \E j \in J : k[j] > NArcs(G) \/ k[j] < -1 THEN {"ArcMap"}
  ELSE
  LET M == Idents(G, c.H, O, k)  J1 == {j \in J : k[j] # -1}  J2 == J \ J1  nf == sl.nf IN
  IF ~(\A j \in J : Src(O, j) \in DOMAIN M) THEN {"Disconnected"}
  ELSE
  LET P(j) == M[Src(O, j)]
      rec(j) == <<P(j)[1], <<P(j)[2], P(j)[3]>>, k[j], Wt(O, j)>>
      want == UNION {{<<t - 1, e[1], e[2], e[3]>> : e \in x.frames[t]} : t \in 1..(nf - 1)}
      fin == FinalArcs(G, x.frames, nf, ev.part = 1)
      ends(p) == Cardinality({e \in fin : e[1] = p})
      states == UNION {{<<t - 1, p[1], p[2]>> : p \in x.acts[t]} : t \in 1..nf} IN
  Cl(\A j \in J1 : Dst(O, j) \in DOMAIN M /\ LET p == P(j)  d == KDst(G, <<p[2], p[3]>>, k[j]) IN M[Dst(O, j)] = <<p[1] + 1, d[1], d[2]>>, "StateOfTwoKinds") \cup
  Cl({M[q] : q \in DOMAIN M} = states /\ Cardinality(DOMAIN M) = Cardinality(states) /\ O.n = Cardinality(states) + 1, "States") \cup
  Cl({rec(j) : j \in J1} = want /\ Cardinality(J1) = Cardinality(want), "Transitions") \cup
  Cl(\A j \in J1 : Lab(O, j) = IF KLab(G, k[j]) = -1 THEN 0 ELSE KLab(G, k[j]), "Label") \cup
  Cl(\A j \in J2 : Dst(O, j) = Final(O) /\ Wt(O, j) = 0 /\ P(j)[1] = nf - 1 /\ id[j] = c.fill, "FinalArc") \cup
  Cl(\A p \in x.acts[nf] : Cardinality({j \in J2 : P(j) = <<nf - 1, p[1], p[2]>>}) = ends(p), "FinalStates") \cup
  Cl(Cardinality(J2) = Cardinality(fin), "FinalStates") \cup
  \* attributes: ff is half the id (streams with it), its own filler elsewhere
  Cl(\A j \in J : ev.ff[o + j] = IF c.hasff[sl.s] = 1 /\ k[j] > 0 THEN k[j] ELSE c.fill2, "FloatAttribute") \cup
  Cl(\A j \in J : ev.rg[o + j] = IF c.hasrg[sl.s] = 1 /\ k[j] > 0 THEN [y \in 1..(k[j] % 3) |-> k[j]] ELSE <<>>, "RaggedAttribute") \cup
  \* gradient of the sum of (position in the batch) * score
  (IF ev.hasgrad = 0 THEN {} ELSE
   LET key(j) == <<P(j)[1], P(j)[2], IF KLab(G, k[j]) = -1 THEN 0 ELSE KLab(G, k[j])>>
       K == {key(j) : j \in J1}
       exp == {<<z[1], z[2], z[3], FoldSet(LAMBDA j, m : m + o + j, 0, {j \in J1 : key(j) = z})>> : z \in K} IN
   Cl(ToSet(ev.grad[i]) = exp /\ Len(ev.grad[i]) = Cardinality(exp), "Gradient"))
FormatF(s, ev) ==
  LET n == AOff(ev.f, Len(ev.f) + 1) IN
  IF Len(ev.f) # Len(ev.slots) \/ Len(ev.ids) # n \/ Len(ev.ff) # n \/ Len(ev.rg) # n THEN {"Shape"}
  ELSE UNION {SlotF(s, ev, i) : i \in 1..Len(ev.slots)}
TFailing(ev, s) ==
  CASE ev.op = "open" -> {}
    [] ev.op = "advance" -> AdvanceF(s, ev)
    [] ev.op = "format" -> FormatF(s, ev)
    [] OTHER -> {"UnknownOp"}
TStep(ev, s) ==
  CASE ev.op = "open" -> [c |-> ev.c, g |-> ev.g, st |-> [i \in 1..Len(ev.g) |-> New(ev.c.H)]]
    [] ev.op = "advance" -> [s EXCEPT !.st = FoldLeft(LAMBDA z, sl : [z EXCEPT ![sl.s] = StepOne(s, z[sl.s], sl)], s.st, ev.slots)]
    [] OTHER -> s
=============================================================================
