------------------------------ MODULE K2RagOps -------------------------------
(* Operations that act on each sublist of the last axis, and indexed sums on dense vectors and matrices.                            *)
EXTENDS K2Ragged
Rows(R) == Items(R, R.d - 2)
Offs(R) == Splits(R, R.d - 1)              \* where each row starts in the values
RECURSIVE SumUp(_)
SumUp(S) == IF S = <<>> THEN 0 ELSE Head(S) + SumUp(Tail(S))
Big(a, b) == IF a >= b THEN a ELSE b
Lit(a, b) == IF a <= b THEN a ELSE b
RECURSIVE FoldS(_, _, _)
FoldS(F(_, _), x, S) == IF S = <<>> THEN x ELSE FoldS(F, F(x, Head(S)), Tail(S))
PerRow(R, F(_)) == LET r == Rows(R) IN [i \in 1..Len(r) |-> F(r[i])]
RECURSIVE BitAnd(_, _), BitOr(_, _)
BitAnd(x, y) == IF x = 0 \/ y = 0 THEN 0 ELSE 2 * BitAnd(x \div 2, y \div 2) + (x % 2) * (y % 2)
BitOr(x, y) == IF x = 0 THEN y ELSE IF y = 0 THEN x ELSE 2 * BitOr(x \div 2, y \div 2) + Big(x % 2, y % 2)
SumRows(R, x0) == PerRow(R, LAMBDA S : x0 + SumUp(S))
MaxRows(R, x0) == PerRow(R, LAMBDA S : FoldS(Big, x0, S))
MinRows(R, x0) == PerRow(R, LAMBDA S : FoldS(Lit, x0, S))
AndRows(R, x0) == PerRow(R, LAMBDA S : FoldS(BitAnd, x0, S))
OrRows(R, x0) == PerRow(R, LAMBDA S : FoldS(BitOr, x0, S))
\* m: one index into the values per row
ArgMaxOk(R, x0, m) ==
  LET r == Rows(R)  o == Offs(R) IN
  Len(m) = Len(r) /\ \A i \in 1..Len(r) :
    LET S == r[i] IN
    IF S = <<>> \/ (\A k \in 1..Len(S) : S[k] < x0) THEN m[i] = -1
    ELSE m[i] >= o[i] /\ m[i] < o[i + 1] /\ \A k \in 1..Len(S) : S[k] <= S[m[i] - o[i] + 1]
ExSum(R) == CatAll(PerRow(R, LAMBDA S : [k \in 1..Len(S) |-> SumUp(SubSeq(S, 1, k - 1))]))
AddRows(R, v, al) == WithValues(R, CatAll(LET r == Rows(R) IN [i \in 1..Len(r) |-> [k \in 1..Len(r[i]) |-> r[i][k] + al * v[i]]]))
\* O is R with every row sorted; m says where each element came from
SortOk(R, O, m, desc) ==
  LET o == Offs(R)  vals == Values(R)  w == Values(O) IN
  O.d = R.d /\ Zeros(O).v = Zeros(R).v /\ Len(m) = Len(vals) /\
  \A i \in 1..(Len(o) - 1) :
    /\ {m[k] : k \in (o[i] + 1)..o[i + 1]} = o[i]..(o[i + 1] - 1)
    /\ \A k \in (o[i] + 1)..o[i + 1] : w[k] = vals[m[k] + 1]
    /\ \A k \in (o[i] + 1)..(o[i + 1] - 1) : IF desc THEN w[k] >= w[k + 1] ELSE w[k] <= w[k + 1]
\* the groups of rows within which sequences are made unique
GroupsOf(R) == IF R.d = 2 THEN <<R.v>> ELSE Items(R, R.d - 3)
UniqueOk(R, O, m, reps) ==
  LET g == GroupsOf(R)  h == GroupsOf(O)  rows == Rows(R)  got == Rows(O)
      first == Scan([i \in 1..Len(g) |-> Len(g[i])], 0)
      at == Scan([i \in 1..Len(h) |-> Len(h[i])], 0) IN
  O.d = R.d /\ Len(h) = Len(g) /\ (R.d > 3 => Zeros(TopOf(O, R.d - 3)).v = Zeros(TopOf(R, R.d - 3)).v) /\
  \A i \in 1..Len(g) :
    /\ {h[i][k] : k \in 1..Len(h[i])} = {g[i][k] : k \in 1..Len(g[i])}
    /\ Cardinality({h[i][k] : k \in 1..Len(h[i])}) = Len(h[i])
    /\ (m # <<>> => \A k \in 1..Len(h[i]) : LET x == m[1][at[i] + k] IN x >= first[i] /\ x < first[i + 1] /\ rows[x + 1] = h[i][k])
    /\ (reps # <<>> => LET q == reps[1] IN q.d = 2 /\ Len(q.v) = Len(g) /\ Len(q.v[i]) = Len(h[i]) /\
                       \A k \in 1..Len(h[i]) : q.v[i][k] = Cardinality({j \in 1..Len(g[i]) : g[i][j] = h[i][k]}))
  /\ (m # <<>> => Len(m[1]) = Len(got))
\* beam pruning of the items of axis a within each list of the axis before; best: the largest leaf
MinusInf == -1000000000
RECURSIVE Leaves(_, _)
Leaves(x, k) == IF k = 0 THEN <<x>> ELSE CatAll([i \in 1..Len(x) |-> Leaves(x[i], k - 1)])
ItemScore(x, k) == FoldS(Big, MinusInf, Leaves(x, k))
PruneOk(R, a, beam, mx, keep) ==           \* keep: positions kept, ascending
  LET I == Items(R, a)  k == R.d - 1 - a
      sc == [i \in 1..Len(I) |-> ItemScore(I[i], k)]
      sp == IF a = 0 THEN <<0, Len(I)>> ELSE Splits(R, a)
      K == {keep[i] + 1 : i \in 1..Len(keep)} IN
  /\ \A i \in 1..(Len(keep) - 1) : keep[i] < keep[i + 1]
  /\ K \subseteq 1..Len(I)
  /\ \A b \in 1..(Len(sp) - 1) :
       LET G == (sp[b] + 1)..sp[b + 1]
           best == FoldS(Big, MinusInf, [j \in 1..(sp[b + 1] - sp[b]) |-> sc[sp[b] + j]])
           pass == {i \in G : sc[i] # MinusInf /\ sc[i] >= best - beam}
           kept == K \cap G IN
       kept \subseteq pass /\ Cardinality(kept) = (IF mx > 0 THEN Lit(mx, Cardinality(pass)) ELSE Cardinality(pass)) /\
       \A i \in kept, j \in pass \ kept : sc[i] >= sc[j]
\* the order of the values by column; a permutation
ReorderOk(R, m) == LET w == Values(R) IN IsPermOf(m, Len(w)) /\ \A i \in 1..(Len(m) - 1) : w[m[i] + 1] <= w[m[i + 1] + 1]
\* how often number j of each row of the answer occurs in that row of the source
Counts(R, S) == [d |-> 2, v |-> LET o == Splits(S, 1) IN [i \in 1..Len(S.v) |-> [k \in 1..Len(S.v[i]) |-> Cardinality({x \in 1..Len(R.v[i]) : R.v[i][x] = o[i] + k - 1})]]]
HashOk(R, h) == LET r == Rows(R) IN Len(h) = Len(r) /\ \A i, j \in 1..Len(r) : r[i] = r[j] => h[i] = h[j]
\* dense: X is a sequence of rows (a vector: rows of one number)
Select(X, idx, df) == [i \in 1..Len(idx) |-> IF idx[i] = -1 THEN df ELSE X[idx[i] + 1]]
AddInto(X, idx, Y) == [r \in 1..Len(X) |-> [c \in 1..Len(X[r]) |-> X[r][c] + SumUp([i \in 1..Len(idx) |-> IF idx[i] = r - 1 THEN Y[i][c] ELSE 0])]]
IndexSum(x, R) == [i \in 1..Len(R.v) |-> SumUp([k \in 1..Len(R.v[i]) |-> IF R.v[i][k] = -1 THEN 0 ELSE x[R.v[i][k] + 1]])]
=============================================================================
