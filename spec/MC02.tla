-------------------------------- MODULE MC02 --------------------------------
(* Design model for C02: the documented constructions applied to ALL small   *)
(* automata; in every state the constructed automaton denotes the language.  *)
EXTENDS K2Rational
CONSTANTS K, L
AllArcs == << <<0,0,1,-2>>, <<0,1,0,-5>>, <<0,1,1,3>>, <<0,2,-1,1>>, <<1,0,0,-7>>, <<1,1,1,-3>>, <<1,1,2,-1>>, <<1,2,-1,-2>> >>
AllArcsN == [k \in 1..Len(AllArcs) |-> IF AllArcs[k][4] > 0 THEN [AllArcs[k] EXCEPT ![4] = -@] ELSE AllArcs[k]]
Mk(S, T) == [n |-> 3, a |-> [k \in 1..Cardinality(S) |-> T[SetToSortSeq(S, <)[k]]],
             c |-> <<Cardinality({i \in S : T[i][1] = 0}), Cardinality({i \in S : T[i][1] = 1}), 0>>]
Sets == {S \in SUBSET (1..Len(AllArcs)) : Cardinality(S) <= K}
Empty == [n |-> 0, a |-> <<>>, c |-> <<>>]
VARIABLES in, op, out
Init == op = "none" /\ out = Empty /\ in \in {<<Mk(S, AllArcs), Mk(T, AllArcs)>> : S \in Sets, T \in {U \in Sets : Cardinality(U) <= 3}}
Sig == {1, 2}
DoUnion == op = "none" /\ op' = "union" /\ out' = UnionRef(in) /\ UNCHANGED in
Neg(F) == [F EXCEPT !.a = [k \in 1..Len(F.a) |-> IF F.a[k][4] > 0 THEN [F.a[k] EXCEPT ![4] = -@] ELSE F.a[k]]]
DoClosure == op = "none" /\ op' = "closure" /\ in' = <<Neg(in[1]), in[2]>> /\ out' = ClosureRef(Neg(in[1]))
DoReverse == op = "none" /\ op' = "reverse" /\ out' = ReverseRef(in[1]) /\ UNCHANGED in
\* replace label 2 of the first automaton by the second
DoReplace == op = "none" /\ op' = "replace" /\ out' = ReplaceRef(in[1], <<in[2]>>, 2) /\ UNCHANGED in
Next == DoUnion \/ DoClosure \/ DoReverse \/ DoReplace
\* the construction without the new start state is only right when the start state is not re-entered
InPlaceDenotes == op = "closure" /\ ~Reentrant(in[1]) => Lang(ClosureInPlace(in[1]), L, Sig, TRUE) = StarLang(in[1], L, Sig)
UnionDenotes == op = "union" => Lang(out, L, Sig, TRUE) = UnionLang(in, L, Sig)
ClosureDenotes == op = "closure" => Lang(out, L, Sig, TRUE) = StarLang(in[1], L, Sig)
ReverseDenotes == op = "reverse" => Lang(out, L, Sig, TRUE) = ReverseLang(in[1], L, Sig)
\* substitution: strings of the first automaton over {1,2} with each 2 replaced
Subst(A, B) ==
  LET LB == Lang(B, L, Sig, TRUE)
      sub(x) == FoldLeft(LAMBDA P, c : IF c = 2 THEN CatL(P, LB, L) ELSE CatL(P, {<< <<c>>, 0 >>}, L), {<< <<>>, x[2] >>}, x[1])
  IN Best(UNION {sub(x) : x \in Lang(A, L + 2, Sig, TRUE)})
\* exact when the second automaton has no empty string (then two more symbols cannot vanish)
ReplaceDenotes == op = "replace" /\ (\A x \in Lang(in[2], L, Sig, TRUE) : x[1] # <<>>)
                  => Lang(out, L, Sig, TRUE) = Subst(in[1], in[2])
=============================================================================
