------------------------------- MODULE K2Rnnt --------------------------------
(* Streaming transducer decoding ("modified": one symbol per frame).  An      *)
(* active state of a stream is <<context, graph state>>, the context being the *)
(* last H symbols other than 0 (and -1).  A = function from active states to    *)
(* scores.  G is the decoding graph; the network row of a context gives the     *)
(* score of every label.  P = [beam, ms, mc, H] (ms, mc <= 0: no limit).        *)
EXTENDS K2Wfsa
StartCtx(H) == [i \in 1..H |-> 0]
StartAct(H) == (<<StartCtx(H), 0>>) :> 0
NextCtx(c, lab) == IF lab \in {0, -1} THEN c ELSE Append(Tail(c), lab)
CtxOf(A) == {p[1] : p \in DOMAIN A}
\* transition k of an active state: 0 = the termination symbol, else a graph arc
KLab(G, k) == IF k = 0 THEN 0 ELSE Lab(G, k)
KGr(G, k) == IF k = 0 THEN 0 ELSE Wt(G, k)
KDst(G, p, k) == IF k = 0 THEN p ELSE <<NextCtx(p[1], Lab(G, k)), Dst(G, k)>>
KScore(G, lp, p, k) == Plus(KGr(G, k), lp[p[1]][IF KLab(G, k) = -1 THEN 0 ELSE KLab(G, k)])
MaxOf(S) == FoldSet(LAMBDA x, m : Max2(x, m), NegInf, S)
NotBelow(x, best, beam) == best = NegInf \/ (x # NegInf /\ x >= best - beam)
\* keeps the best `lim` of D by score m, within the beam
Limit(D, m, beam, lim) ==
  LET best == MaxOf({m[d] : d \in D})
      rank == [d \in D |-> Cardinality({e \in D : m[e] > m[d]})] IN
  [keep |-> {d \in D : NotBelow(m[d], best, beam) /\ (lim <= 0 \/ rank[d] < lim)},
   \* ties across the limit: any of them may be the ones to go
   amb |-> lim > 0 /\ \E d \in D : rank[d] < lim /\ NotBelow(m[d], best, beam) /\ rank[d] + Cardinality({e \in D : m[e] = m[d]}) > lim]
Candidates(P, G, A, lp) ==
  LET best == MaxOf({A[p] : p \in DOMAIN A}) IN
  UNION {LET ks == {0} \cup {k \in 1..NArcs(G) : Src(G, k) = p[2]} IN
         {<<p, k>> : k \in {k \in ks : KLab(G, k) = 0 \/
            NotBelow(Plus(A[p], IF KLab(G, k) = -1 THEN KGr(G, k) ELSE KScore(G, lp, p, k)), best, P.beam)}}
         : p \in {q \in DOMAIN A : q[2] # Final(G)}}
\* one frame: [A, arcs (set of <<p, k, score, dest>>), amb]
Advance(P, G, A, lp) ==
  LET X == {<<c[1], c[2], KScore(G, lp, c[1], c[2]), KDst(G, c[1], c[2])>> : c \in Candidates(P, G, A, lp)}
      D == {x[4] : x \in X}
      m == [d \in D |-> MaxOf({Plus(A[x[1]], x[3]) : x \in {y \in X : y[4] = d}})]
      L1 == Limit(D, m, P.beam, P.ms)
      C == {d[1] : d \in L1.keep}
      mc == [c \in C |-> MaxOf({m[d] : d \in {e \in L1.keep : e[1] = c}})]
      L2 == Limit(C, mc, P.beam, P.mc)
      K == {d \in L1.keep : d[1] \in L2.keep} IN
  [A |-> [d \in K |-> m[d]], arcs |-> {x \in X : x[4] \in K}, amb |-> L1.amb \/ L2.amb]
\* what the lattice of the first n frames holds
FinalArcs(G, frames, n, part) ==
  LET real == {x \in frames[n] : KLab(G, x[2]) = -1} IN IF real = {} /\ part THEN frames[n] ELSE real
=============================================================================
