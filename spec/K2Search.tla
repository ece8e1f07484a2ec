------------------------------ MODULE K2Search ------------------------------
(* Searching a transducer frame by frame, at most one symbol per frame.       *)
(* Every frame gives, for each context (the last H symbols), every token a    *)
(* whole-number weight; weights of one context add up to K, so probabilities  *)
(* are weight / K.  A hypothesis is a symbol sequence; blank and unk add      *)
(* nothing to it.  Histories of symbols start with H blanks.                  *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, Functions, TLC
\* P = [V, H, blank, unk];  number of the context of ys (without the initial blanks)
CtxOf(P, ys) ==
  LET full == [i \in 1..P.H |-> P.blank] \o ys IN
  FoldLeft(LAMBDA z, y : z * P.V + y, 0, SubSeq(full, Len(full) - P.H + 1, Len(full)))
Grow(P, ys, y) == IF y = P.blank \/ y = P.unk THEN ys ELSE Append(ys, y)
\* greedy: the heaviest token of every frame; the set of results where weights tie
ArgMaxes(row) == {y \in 0..(Len(row) - 1) : \A z \in 1..Len(row) : row[z] <= row[y + 1]}
Greedy(P, frames) ==
  FoldLeft(LAMBDA S, f : UNION {{Grow(P, ys, y) : y \in ArgMaxes(f[CtxOf(P, ys) + 1])} : ys \in S}, {<<>>}, frames)
\* beam: D maps hypotheses to weights; continuations <<ys, y, weight>>
Continuations(P, D, f) == {<<ys, y, D[ys] * f[CtxOf(P, ys) + 1][y + 1]>> : ys \in DOMAIN D, y \in 0..(P.V - 1)}
Merge(P, C) ==
  [ys \in {Grow(P, c[1], c[2]) : c \in C} |-> FoldSet(LAMBDA c, s : s + c[3], 0, {c \in C : Grow(P, c[1], c[2]) = ys})]
\* the k best continuations; Tie: which they are is not determined (or weights are too close for single precision)
Kept(C, k) == {c \in C : Cardinality({d \in C : d[3] > c[3]}) < k}
Tie(C, k) == Cardinality(C) > k /\ LET X == Kept(C, k) IN Cardinality(X) # k
BeamStep(P, k, s, f) ==
  IF s.amb THEN s ELSE
  LET C == Continuations(P, s.D, f) IN
  IF Tie(C, k) THEN [s EXCEPT !.amb = TRUE] ELSE [s EXCEPT !.D = Merge(P, Kept(C, k))]
Beam(P, k, frames) == FoldLeft(LAMBDA s, f : BeamStep(P, k, s, f), [amb |-> FALSE, D |-> [x \in {<<>>} |-> 1]], frames)
\* log2 in units of 1/1024 (within 2 units)
Shift(x) == CHOOSE n \in 0..30 : 2 ^ n <= x /\ (n = 30 \/ x < 2 ^ (n + 1))
Norm15(x) == LET n == Shift(x) IN IF n <= 14 THEN x * 2 ^ (14 - n) ELSE x \div (2 ^ (n - 14))
RECURSIVE Bits(_, _)
Bits(x, n) == IF n = 0 THEN 0 ELSE LET y == (x * x) \div 16384 IN IF y >= 32768 THEN 2 ^ (n - 1) + Bits(y \div 2, n - 1) ELSE Bits(y, n - 1)
Log2K(x) == Shift(x) * 1024 + Bits(Norm15(x), 10)
\* hypotheses that may be the best per symbol (initial blanks included): -log2(p) / (H + length) smallest
\* with c = log2(K^T): cost(ys) = c - log2(D[ys]);  cost(a) / m < cost(b) / n  iff  cost(a) * n < cost(b) * m
Most(P, D, c) ==
  LET m(ys) == Len(ys) + P.H
      cost(ys) == c - Log2K(D[ys]) IN
  {a \in DOMAIN D : D[a] > 0 /\ \A b \in DOMAIN D : D[b] > 0 => cost(a) * m(b) <= cost(b) * m(a) + 8 * (m(a) + m(b))}
=============================================================================
