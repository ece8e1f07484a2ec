------------------------------- MODULE K2Prune -------------------------------
(* Beam search through the lattice of K2Dense.                               *)
(* The beam of an utterance is kept in units of 1/U; it starts at the search *)
(* beam D and is adjusted before every frame from the number of active       *)
(* states, so that it stays between the limits; nothing is pruned when the   *)
(* last row (the one of label -1) is consumed.                               *)
EXTENDS K2Dense
U == 10000
Eps == 60            \* rounding of the beam we tolerate
NoBeam == 2000000000
Actives(V) == {s \in DOMAIN V : V[s] # NegInf}
\* P = [D (beam * U), mina, maxa, online, part]; left = rows that remain, this one included
NewBeam(P, d, nact, left) ==
  LET near == P.online = 0 /\ left <= 5
      \* twice the minimum, as half of the maximum may be fractional
      mina2 == IF near THEN Max2(2 * P.mina, P.maxa) ELSE 2 * P.mina
      d2 == IF nact <= P.maxa
            THEN IF 2 * nact >= mina2 \/ nact = 0 THEN (8 * d + 2 * P.D) \div 10
                 ELSE Min2((Max2(d, P.D) * 5) \div 4, 100000000)
            ELSE IF near THEN d ELSE (Min2(d, P.D) * 8) \div 10
  IN d2
\* the acoustic row, or, if partial results are wanted and no active state has a final arc, the end of everything
Partial(P, G, V) == P.part = 1 /\ ~\E a \in {G.a[k] : k \in 1..NArcs(G)} : a[3] = -1 /\ V[a[1]] # NegInf
ArcTo(G, part, a) == IF part THEN Final(G) ELSE a[2]
ArcVal(part, row, a) == IF part THEN a[4] ELSE RowSc(row, a)
Ends(G, part, row, V) ==
  FoldLeft(LAMBDA W, a : IF V[a[1]] = NegInf THEN W
                         ELSE LET d == ArcTo(G, part, a) IN [W EXCEPT ![d] = Max2(@, Plus(V[a[1]], ArcVal(part, row, a)))], ZeroVec(G), G.a)
BestOf(W) == FoldSet(LAMBDA s, x : Max2(x, W[s]), NegInf, DOMAIN W)
\* scores are far below 10^5, so that U times a difference within any beam fits
Within(x, d) == d = NoBeam \/ (x < 100000 /\ x * U < d) \/ (d >= 100000000 /\ x < 10000)
Unclear(x, d) == d # NoBeam /\ x < 100000 /\ x * U - d < Eps /\ d - x * U < Eps
\* one frame: X = [V, d, amb (a decision was too close), ps (is the step a partial end)]
SearchStep(P, G, row, X, left) ==
  LET nact == Cardinality(Actives(X.V))
      last == P.online = 0 /\ left = 1
      d == IF left <= 0 THEN X.d ELSE IF last THEN NoBeam ELSE NewBeam(P, X.d, nact, left)
      part == left = 1 /\ Partial(P, G, X.V)
      W == Ends(G, part, row, X.V)
      best == BestOf(W) IN
  [V |-> [s \in DOMAIN W |-> IF W[s] # NegInf /\ Within(best - W[s], d) THEN W[s] ELSE NegInf],
   d |-> d, amb |-> X.amb \/ \E s \in DOMAIN W : W[s] # NegInf /\ Unclear(best - W[s], d), ps |-> part]
Search(P, G, b) ==     \* sequence of Len(b)+1 records
  FoldLeft(LAMBDA S, t : Append(S, SearchStep(P, G, b[t], S[Len(S)], Len(b) - t + 1)),
           <<[V |-> StartVec(G), d |-> P.D, amb |-> FALSE, ps |-> FALSE]>>, [t \in 1..Len(b) |-> t])
Amb(S) == \E i \in 1..Len(S) : S[i].amb
\* arcs between active states
Alive(G, b, S) ==
  {x \in (0..(Len(b) - 1)) \X (1..NArcs(G)) :
     LET a == G.a[x[2]] IN S[x[1] + 1].V[a[1]] # NegInf /\ S[x[1] + 2].V[ArcTo(G, S[x[1] + 2].ps, a)] # NegInf /\
                           ArcVal(S[x[1] + 2].ps, b[x[1] + 1], a) # NegInf}
\* best way from every active state to frame e, relative to the best way to where it ends (0 = on it)
BwdFrom(G, b, S, e) ==
  LET B0 == [s \in States(G) |-> IF S[e + 1].V[s] = NegInf THEN NegInf ELSE -S[e + 1].V[s]]
      Back(i, X) == LET row == b[i]  part == S[i + 1].ps IN
         <<FoldLeft(LAMBDA W, a : LET d == ArcTo(G, part, a) IN
                       IF S[i].V[a[1]] = NegInf \/ S[i + 1].V[d] = NegInf THEN W
                       ELSE [W EXCEPT ![a[1]] = Max2(@, Plus(X[1][d], ArcVal(part, row, a)))], ZeroVec(G), G.a)>> \o X IN
  FoldRight(Back, [i \in 1..e |-> i], <<B0>>)
\* how far the best path through the arc stays behind (PosInf: there is none), judged at frame e
Behind(G, b, S, W, x) ==
  LET a == G.a[x[2]]  part == S[x[1] + 2].ps
      p == Plus(Plus(S[x[1] + 1].V[a[1]], ArcVal(part, b[x[1] + 1], a)), W[x[1] + 2][ArcTo(G, part, a)]) IN
  IF p = NegInf THEN PosInf ELSE -p
\* arcs within the output beam judged at frame e
Good(G, b, S, A, e, beam2) ==
  IF e = 0 THEN {} ELSE LET W == BwdFrom(G, b, S, e) IN {x \in A : x[1] < e /\ LET y == Behind(G, b, S, W, x) IN y # PosInf /\ 2 * y <= beam2}
=============================================================================
