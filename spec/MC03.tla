-------------------------------- MODULE MC03 --------------------------------
(* Design model for C03: connecting (forward and backward reachability by    *)
(* layers, as the library's batched algorithm) and topological sorting (by   *)
(* layers of states whose predecessors are all placed) over ALL automata     *)
(* with four states and at most K arcs from a fixed universe.                *)
EXTENDS K2Rewrite
CONSTANTS K, B
AllArcs == << <<0,0,1,-1>>, <<0,1,1,-2>>, <<0,2,2,1>>, <<0,3,-1,5>>, <<1,1,0,2>>, <<1,2,1,3>>, <<1,3,-1,1>>, <<2,0,1,4>>, <<2,1,2,-3>>, <<2,3,-1,0>> >>
Mk(S) == [n |-> 4, a |-> [k \in 1..Cardinality(S) |-> AllArcs[SetToSortSeq(S, <)[k]]],
          c |-> [s \in 1..4 |-> Cardinality({i \in S : AllArcs[i][1] = s - 1})]]
VARIABLES F, phase, fw, bw, front, order, out, m
vars == <<F, phase, fw, bw, front, order, out, m>>
None2 == [n |-> 0, a |-> <<>>, c |-> <<>>]
Init == /\ F \in {Mk(S) : S \in {T \in SUBSET (1..Len(AllArcs)) : Cardinality(T) <= K}}
        /\ phase = "fw" /\ fw = {0} /\ front = {0} /\ bw = {} /\ order = <<>> /\ out = None2 /\ m = <<>>
Succ(S) == {Dst(F, k) : k \in {j \in Arcs1(F) : Src(F, j) \in S}}
Pred(S) == {Src(F, k) : k \in {j \in Arcs1(F) : Dst(F, j) \in S}}
Forward == /\ phase = "fw"
           /\ LET nx == Succ(front) \ fw IN
              IF nx = {} THEN phase' = "bw" /\ bw' = {3} \cap fw /\ front' = {3} \cap fw /\ fw' = fw
              ELSE phase' = phase /\ fw' = fw \cup nx /\ front' = nx /\ bw' = bw
           /\ UNCHANGED <<F, order, out, m>>
Backward == /\ phase = "bw"
            /\ LET nx == (Pred(front) \cap fw) \ bw IN
               IF nx = {} THEN phase' = "cut" /\ UNCHANGED <<bw, front>>
               ELSE phase' = phase /\ bw' = bw \cup nx /\ front' = nx
            /\ UNCHANGED <<F, fw, order, out, m>>
Sub(S, seqS) ==    \* restriction of F to the states S, numbered by seqS
  LET num(s) == CHOOSE i \in 0..(Len(seqS) - 1) : seqS[i + 1] = s
      ks == FoldLeft(LAMBDA x, s : x \o SetToSortSeq({k \in Arcs1(F) : Src(F, k) = s /\ Dst(F, k) \in S}, <), <<>>, seqS)
  IN <<[n |-> Len(seqS), a |-> [i \in 1..Len(ks) |-> <<num(Src(F, ks[i])), num(Dst(F, ks[i])), Lab(F, ks[i]), Wt(F, ks[i])>>],
        c |-> [i \in 1..Len(seqS) |-> Cardinality({k \in Arcs1(F) : Src(F, k) = seqS[i] /\ Dst(F, k) \in S})]], ks>>
Cut_ == /\ phase = "cut"
        /\ LET r == IF 0 \in bw THEN Sub(bw, SetToSortSeq(bw, <)) ELSE <<None2, <<>>>> IN out' = r[1] /\ m' = r[2]
        /\ phase' = "connected" /\ UNCHANGED <<F, fw, bw, front, order>>
\* topological sort of the whole automaton, start state first, final state last
Acyclic == \A s \in 0..3 : s \notin ReachFrom({e \in Edges(F) : e[1] # e[2]}, {}, Succ({s}) \ {s})
Sortable == Acyclic /\ ~\E k \in Arcs1(F) : Dst(F, k) = 0 /\ Src(F, k) # 0
SortLayer == /\ phase \in {"connected", "sort"} /\ Sortable
             /\ LET placed == {order[i] : i \in 1..Len(order)}
                    ready == {s \in 0..2 : s \notin placed /\ \A k \in Arcs1(F) : (Dst(F, k) = s /\ Src(F, k) # s) => Src(F, k) \in placed}
                    nx == IF order = <<>> THEN {0} ELSE ready
                IN IF {0, 1, 2} \subseteq placed
                   THEN LET o == Append(order, 3)  r == Sub(0..3, o) IN
                        phase' = "sorted" /\ order' = o /\ out' = r[1] /\ m' = r[2]
                   ELSE phase' = "sort" /\ order' = order \o SetToSortSeq(nx, <) /\ UNCHANGED <<out, m>>
             /\ UNCHANGED <<F, fw, bw, front>>
Next == Forward \/ Backward \/ Cut_ \/ SortLayer
Words(A) == LET ps == BPaths(A, B) IN [x \in {<<PathLabs(A, p), PathW(A, p), Len(p)>> : p \in ps} |->
              Cardinality({p \in ps : <<PathLabs(A, p), PathW(A, p), Len(p)>> = x})]
ConnectRight == phase = "connected" => ConnectClauses(F, out, m) = {} /\ Words(out) = Words(F)
SortRight == phase = "sorted" => TopSortClauses(F, out, m) = {} /\ Words(out) = Words(F)
\* the relation is tight: dropping the last kept arc is noticed
Tight == (phase = "connected" /\ Len(m) > 0) =>
   LET k == Len(m)  C == [out EXCEPT !.a = SubSeq(@, 1, k - 1), !.c[out.a[k][1] + 1] = @ - 1] IN ConnectClauses(F, C, SubSeq(m, 1, k - 1)) # {}
=============================================================================
