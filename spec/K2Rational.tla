------------------------------ MODULE K2Rational ------------------------------
(* Rational operations: what they denote, and the constructions that the     *)
(* library documents (used as reference automata).                           *)
EXTENDS K2Attr

Best(S) ==    \* one entry per string, the best weight
  {x \in S : ~\E y \in S : y[1] = x[1] /\ y[2] > x[2]}
UnionLang(S, L, Sig) == Best(UNION {Lang(S[i], L, Sig, TRUE) : i \in 1..Len(S)})
Cat(P, Q, L) == {<<x[1] \o y[1], x[2] + y[2]>> : x \in P, y \in Q} \cap {<<s, w>> \in {<<x[1] \o y[1], x[2] + y[2]>> : x \in P, y \in Q} : Len(s) <= L}
CatL(P, Q, L) == UNION {{<<x[1] \o y[1], x[2] + y[2]>> : y \in {z \in Q : Len(z[1]) + Len(x[1]) <= L}} : x \in P}
RECURSIVE StarFix(_, _, _, _)
StarFix(K, P, L, n) == LET N == Best(K \cup CatL(K, P, L)) IN IF n = 0 \/ N = K THEN K ELSE StarFix(N, P, L, n - 1)
\* scores <= 0 on epsilon strings, so that the best repetition count is finite
StarLang(F, L, Sig) == StarFix({<< <<>>, 0 >>}, Lang(F, L, Sig, TRUE), L, L + 2)
RevSeq(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
ReverseLang(F, L, Sig) == {<<RevSeq(x[1]), x[2]>> : x \in Lang(F, L, Sig, TRUE)}

(* -------------------------------------------------------- constructions *)
Unfinal(l) == IF l = -1 THEN 0 ELSE l
\* union: new start and final state, epsilon arcs to the copies of the start states
UnionRef(S) ==
  LET st(i) == 1 + FoldLeft(LAMBDA x, y : x + y.n - 1, 0, SubSeq(S, 1, i - 1))
      n == 2 + FoldLeft(LAMBDA x, y : x + y.n - 1, 0, S)
      mp(i, s) == IF s = S[i].n - 1 THEN n - 1 ELSE st(i) + s
  IN [n |-> n,
      a |-> [i \in 1..Len(S) |-> <<0, st(i), 0, 0>>] \o
            FoldLeft(LAMBDA x, i : x \o [k \in 1..Len(S[i].a) |->
                        <<mp(i, Src(S[i], k)), mp(i, Dst(S[i], k)), Lab(S[i], k), Wt(S[i], k)>>],
                     <<>>, [i \in 1..Len(S) |-> i])]
ClosureInPlace(F) ==
  [n |-> F.n,
   a |-> << <<0, F.n - 1, -1, 0>> >> \o
         [k \in 1..NArcs(F) |-> <<Src(F, k), IF Dst(F, k) = Final(F) THEN 0 ELSE Dst(F, k), Unfinal(Lab(F, k)), Wt(F, k)>>]]
Reentrant(F) == \E k \in 1..NArcs(F) : Dst(F, k) = 0
\* an automaton whose start state can be re-entered first gets a new start state
ClosureRef(F) == IF Reentrant(F) THEN ClosureInPlace(UnionRef(<<F>>)) ELSE ClosureInPlace(F)
ReverseRef(F) ==
  LET mp(s) == IF s = F.n - 1 THEN 0 ELSE IF s = 0 THEN F.n - 1 ELSE s IN
  [n |-> F.n + 1,
   a |-> [k \in 1..NArcs(F) |-> <<mp(Dst(F, k)), mp(Src(F, k)), Unfinal(Lab(F, k)), Wt(F, k)>>] \o << <<F.n - 1, F.n, -1, 0>> >>]
\* I: automaton with marked arcs; labels in sb .. sb+Len(S)-1 are replaced
Marked(I, S, sb, k) == Lab(I, k) >= sb /\ Lab(I, k) < sb + Len(S)
ReplaceRef(I, S, sb) ==
  LET elem(k) == S[Lab(I, k) - sb + 1]
      sz(k) == IF Marked(I, S, sb, k) THEN Max2(elem(k).n - 1, 0) ELSE 0
      off(k) == (I.n - 1) + FoldLeft(LAMBDA x, j : x + sz(j), 0, [j \in 1..(k - 1) |-> j])
      n == off(NArcs(I) + 1) + 1
      im(s) == IF s = I.n - 1 THEN n - 1 ELSE s
      part(k) ==
        IF ~Marked(I, S, sb, k) THEN << <<im(Src(I, k)), im(Dst(I, k)), Lab(I, k), Wt(I, k)>> >>
        ELSE IF elem(k).n = 0 THEN << <<im(Src(I, k)), im(Dst(I, k)), 0, Wt(I, k)>> >>
        ELSE LET E == elem(k) IN
             << <<im(Src(I, k)), off(k), 0, Wt(I, k)>> >> \o
             [j \in 1..NArcs(E) |-> <<off(k) + Src(E, j),
                                      IF Dst(E, j) = E.n - 1 THEN im(Dst(I, k)) ELSE off(k) + Dst(E, j),
                                      Unfinal(Lab(E, j)), Wt(E, j)>>]
  IN IF I.n = 0 THEN [n |-> 0, a |-> <<>>]
     ELSE [n |-> n, a |-> FoldLeft(LAMBDA x, k : x \o part(k), <<>>, [k \in 1..NArcs(I) |-> k])]

\* linear automaton of a label sequence
LinearRef(s) == [n |-> Len(s) + 2,
  a |-> [i \in 1..(Len(s) + 1) |-> <<i - 1, i, IF i > Len(s) THEN -1 ELSE s[i], 0>>],
  c |-> [i \in 1..(Len(s) + 2) |-> IF i = Len(s) + 2 THEN 0 ELSE 1]]

SameLang(F, G, L, Sig) == Lang(F, L, Sig, TRUE) = Lang(G, L, Sig, TRUE)
UsefulArcs(F) == LET u == Useful(F) IN {k \in 1..NArcs(F) : Src(F, k) \in u /\ Dst(F, k) \in u}
=============================================================================
