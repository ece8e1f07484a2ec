-------------------------------- MODULE MC15 --------------------------------
(* The library's encoding of one frame: states as integers                   *)
(* context * #graph states + graph state with contexts in base V, sorted,     *)
(* grouped by equal context.  It must be the abstract step; what is active     *)
(* must be what the paths so far reach; limits must hold.                     *)
EXTENDS K2Rnnt
CONSTANTS MaxT, V, H, W
VARIABLES F, P, A, Enc, paths, t, amb
Mk(n, a) == [n |-> n, a |-> a, c |-> [s \in 1..n |-> Cardinality({k \in 1..Len(a) : a[k][1] = s - 1})]]
Graphs == {Mk(2, <<<<0, 0, 1, 0>>, <<0, 0, 2, 0>>, <<0, 1, -1, 0>>>>),
           Mk(3, <<<<0, 0, 1, 0>>, <<0, 1, 0, 1>>, <<1, 0, 2, 0>>, <<1, 2, -1, 1>>>>),
           Mk(3, <<<<0, 1, 1, 0>>, <<0, 1, 2, 1>>, <<1, 1, 1, 0>>, <<1, 2, -1, 0>>>>)}
Pow(b, e) == FoldLeft(LAMBDA x, y : x * b, 1, [i \in 1..e |-> 1])
CtxInt(c) == FoldLeft(LAMBDA x, y : x * V + y, 0, c)
ToInt(p) == CtxInt(p[1]) * F.n + p[2]
\* digit i (1..H) of the context in state z, as the library extracts it
Digit(z, i) == (((z \div F.n) % Pow(V, H - i + 1)) \div Pow(V, H - i))
Init == /\ F \in Graphs /\ P \in [beam : {1, 3, 100}, ms : {2, 100}, mc : {1, 100}, H : {H}]
        /\ A = StartAct(H) /\ Enc = (0 :> 0) /\ paths = {<<<<>>, 0, 0>>} /\ t = 0 /\ amb = FALSE
Rows == {(0 :> 1) @@ r : r \in [1..(V - 1) -> W]}
\* the library's step on encoded states
EncStep(lp) ==
  LET best == MaxOf({Enc[z] : z \in DOMAIN Enc})
      ctx(z) == [i \in 1..H |-> Digit(z, i)]
      Y == UNION {LET gs == z % F.n IN IF gs = F.n - 1 THEN {} ELSE
             {<<z, Enc[z] + lp[ctx(z)][0]>>} \cup
             {<<(IF Lab(F, k) \in {0, -1} THEN z \div F.n ELSE ((z \div F.n) % Pow(V, H - 1)) * V + Lab(F, k)) * F.n + Dst(F, k), Enc[z] + KScore(F, lp, <<ctx(z), gs>>, k)>>
               : k \in {j \in 1..NArcs(F) : Src(F, j) = gs /\ (Lab(F, j) = 0 \/ Enc[z] + (IF Lab(F, j) = -1 THEN Wt(F, j) ELSE KScore(F, lp, <<ctx(z), gs>>, j)) >= best - P.beam)}}
             : z \in DOMAIN Enc}
      D == {y[1] : y \in Y}
      m == [d \in D |-> MaxOf({y[2] : y \in {u \in Y : u[1] = d}})]
      K1 == Limit(D, m, P.beam, P.ms).keep
      mc == [c \in {d \div F.n : d \in K1} |-> MaxOf({m[d] : d \in {e \in K1 : e \div F.n = c}})]
      K2 == Limit(DOMAIN mc, mc, P.beam, P.mc).keep IN
  [d \in {e \in K1 : e \div F.n \in K2} |-> m[d]]
Contexts == [1..H -> 0..(V - 1)]
\* the row of a context depends on its last symbol: r for an odd one, q for an even one
Frame ==
  /\ t < MaxT /\ ~amb
  /\ \E r, q \in Rows :
     LET lp == [c \in Contexts |-> IF c[H] % 2 = 1 THEN r ELSE q]
         S == Advance(P, F, A, lp) IN
     /\ A' = S.A /\ amb' = S.amb
     /\ Enc' = EncStep(lp)
     /\ paths' = UNION {{<<IF KLab(F, k) \in {0, -1} THEN z[1] ELSE Append(z[1], KLab(F, k)), IF k = 0 THEN z[2] ELSE Dst(F, k),
                          z[3] + KScore(F, lp, <<LET s == StartCtx(H) \o z[1] IN SubSeq(s, Len(s) - H + 1, Len(s)), z[2]>>, k)>>
                        : k \in {0} \cup {j \in 1..NArcs(F) : Src(F, j) = z[2]}} : z \in {y \in paths : y[2] # Final(F)}}
  /\ t' = t + 1 /\ UNCHANGED <<F, P>>
Next == Frame
Loose == P.beam = 100 /\ P.ms = 100 /\ P.mc = 100
StateOf(z) == LET s == StartCtx(H) \o z[1] IN <<SubSeq(s, Len(s) - H + 1, Len(s)), z[2]>>
Correct ==
  /\ Loose => /\ DOMAIN A = {StateOf(z) : z \in paths}
              /\ \A p \in DOMAIN A : A[p] = MaxOf({z[3] : z \in {y \in paths : StateOf(y) = p}})
  /\ ~amb => /\ Cardinality(DOMAIN A) <= P.ms /\ Cardinality(CtxOf(A)) <= P.mc
             /\ DOMAIN Enc = {ToInt(p) : p \in DOMAIN A} /\ \A p \in DOMAIN A : Enc[ToInt(p)] = A[p]
             /\ \A p \in DOMAIN A : p[1] = [i \in 1..H |-> Digit(ToInt(p), i)]
  /\ \A p \in DOMAIN A : \E z \in paths : StateOf(z) = p /\ z[3] = A[p]
  /\ \A p, q \in DOMAIN A : A[p] >= A[q] - P.beam
=============================================================================
