-------------------------------- MODULE MC04 --------------------------------
(* Design model for C04: epsilon removal by closures and weighted subset     *)
(* construction, one subset per step, over ALL acyclic automata with four    *)
(* states and at most K arcs of a fixed universe.                            *)
EXTENDS K2Derive
CONSTANTS K, L
AllArcs == << <<0,1,0,-2>>, <<0,1,1,-1>>, <<0,2,1,1>>, <<0,2,2,-5>>, <<0,3,-1,2>>, <<1,2,0,-1>>, <<1,2,1,3>>, <<1,3,-1,-2>>, <<2,2,0,-1>>, <<2,3,-1,1>> >>
Mk(S) == [n |-> 4, a |-> [k \in 1..Cardinality(S) |-> AllArcs[SetToSortSeq(S, <)[k]]],
          c |-> [s \in 1..4 |-> Cardinality({i \in S : AllArcs[i][1] = s - 1})]]
VARIABLES F, E, phase, queue, subs, arcs, eids
Nil == [n |-> 0, a |-> <<>>, c |-> <<>>]
Init == /\ F \in {Mk(S) : S \in {T \in SUBSET (1..Len(AllArcs)) : Cardinality(T) <= K}}
        /\ E = Nil /\ phase = "start" /\ queue = <<>> /\ subs = <<>> /\ arcs = <<>> /\ eids = <<>>
\* best epsilon path from s to t as a sequence of arcs (loops never improve): enumerated
RECURSIVE EPaths(_, _, _)
EPaths(s, p, seen) == {<<s, p>>} \cup UNION {EPaths(Dst(F, k), Append(p, k), seen \cup {Dst(F, k)}) :
                          k \in {j \in 1..NArcs(F) : Src(F, j) = s /\ Lab(F, j) = 0 /\ Dst(F, j) \notin seen}}
SeqLess(p, q) == LET i == CHOOSE j \in 1..(Min2(Len(p), Len(q)) + 1) :
                        (j > Min2(Len(p), Len(q)) \/ p[j] # q[j]) /\ \A h \in 1..(j - 1) : p[h] = q[h]
                 IN IF i > Min2(Len(p), Len(q)) THEN Len(p) < Len(q) ELSE p[i] < q[i]
BestTo(s) == LET P == EPaths(s, <<>>, {s})
                 W(x) == SumSeq([i \in 1..Len(x[2]) |-> Wt(F, x[2][i])]) IN
  {x \in P : ~\E y \in P : y[1] = x[1] /\ (W(y) > W(x) \/ (W(y) = W(x) /\ y[2] # x[2] /\ SeqLess(y[2], x[2])))}
RemoveEps ==
  /\ phase = "start"
  /\ LET from(s) == FoldLeft(LAMBDA acc, x : acc \o [i \in 1..Cardinality({k \in 1..NArcs(F) : Src(F, k) = x[1] /\ Lab(F, k) # 0}) |->
                         Append(x[2], SetToSortSeq({k \in 1..NArcs(F) : Src(F, k) = x[1] /\ Lab(F, k) # 0}, <)[i])],
                       <<>>, SetToSeq(BestTo(s)))
         all == [s \in 0..2 |-> from(s)]
         seqs == all[0] \o all[1] \o all[2]
         src == [i \in 1..Len(seqs) |-> IF i <= Len(all[0]) THEN 0 ELSE IF i <= Len(all[0]) + Len(all[1]) THEN 1 ELSE 2]
     IN /\ eids' = seqs
        /\ E' = [n |-> 4, c |-> <<Len(all[0]), Len(all[1]), Len(all[2]), 0>>,
                 a |-> [i \in 1..Len(seqs) |-> LET q == seqs[i] IN
                          <<src[i], Dst(F, q[Len(q)]), Lab(F, q[Len(q)]), SumSeq([j \in 1..Len(q) |-> Wt(F, q[j])])>>]]
        /\ phase' = "det" /\ queue' = << {<<0, 0>>} >> /\ subs' = << {<<0, 0>>} >>
  /\ UNCHANGED <<F, arcs>>
\* subsets are sets of <<state, residual>>; residuals are normalised to maximum 0
Norm(S) == LET mx == CHOOSE w \in {x[2] : x \in S} : \A y \in S : y[2] <= w IN <<mx, {<<x[1], x[2] - mx>> : x \in S}>>
BestIn(S) == {x \in S : ~\E y \in S : y[1] = x[1] /\ y[2] > x[2]}
Subset ==
  /\ phase = "det" /\ queue # <<>>
  /\ LET S == Head(queue)
         labs == SetToSortSeq({Lab(E, k) : k \in {j \in 1..NArcs(E) : \E x \in S : x[1] = Src(E, j)}}, <)
         succ(c) == Norm(BestIn({<<Dst(E, k), x[2] + Wt(E, k)>> : <<x, k>> \in {<<y, j>> \in S \X (1..NArcs(E)) : Src(E, j) = y[1] /\ Lab(E, j) = c}}))
         new == [i \in 1..Len(labs) |-> succ(labs[i])]
         ext == FoldLeft(LAMBDA q, i : IF labs[i] = -1 \/ \E j \in 1..Len(q) : q[j] = new[i][2] THEN q ELSE Append(q, new[i][2]),
                         subs, [i \in 1..Len(labs) |-> i])
     IN /\ subs' = ext /\ queue' = Tail(queue) \o SubSeq(ext, Len(subs) + 1, Len(ext))
        /\ arcs' = arcs \o [i \in 1..Len(labs) |-> <<S, new[i][2], labs[i], new[i][1]>>]
  /\ UNCHANGED <<F, E, phase, eids>>
Next == RemoveEps \/ Subset
Num(S) == (CHOOSE i \in 1..Len(subs) : subs[i] = S) - 1
Det == [n |-> Len(subs) + 1,
        a |-> [k \in 1..Len(arcs) |-> <<Num(arcs[k][1]), IF arcs[k][3] = -1 THEN Len(subs) ELSE Num(arcs[k][2]), arcs[k][3], arcs[k][4]>>],
        c |-> <<>>]
Done == phase = "det" /\ queue = <<>>
EpsRemoved == phase = "det" => EpsFree(E) /\ RmEpsArcs(F, E, eids) /\ Lang(F, L, {1, 2}, TRUE) = Lang(E, L, {1, 2}, TRUE)
Determinized == Done => DeterministicArcs(Det) /\ Lang(E, L, {1, 2}, FALSE) = Lang(Det, L, {1, 2}, FALSE)
Bounded == Len(subs) <= 40
=============================================================================
