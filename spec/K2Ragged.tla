------------------------------ MODULE K2Ragged ------------------------------
(* Ragged tensors as what they stand for: a ragged tensor with d axes is a list of lists of ... (d deep) of values.              *)
(* R = [d |-> number of axes, v |-> the nested list]; leaves of a bare shape are 0. Axis a has the items Items(R, a): the things  *)
(* that indexes on axis a range over, in order. Every operation is defined on the nested list; the row-splits / row-ids / sizes   *)
(* views and the index maps follow.                                                                                               *)
EXTENDS Integers, Sequences, FiniteSets

RECURSIVE CatAll(_)
CatAll(S) == IF S = <<>> THEN <<>> ELSE IF Len(S) = 1 THEN S[1]
             ELSE LET h == Len(S) \div 2 IN CatAll(SubSeq(S, 1, h)) \o CatAll(SubSeq(S, h + 1, Len(S)))
RECURSIVE Deep(_, _)                       \* items k levels down
Deep(L, k) == IF k = 0 THEN L ELSE Deep(CatAll(L), k - 1)
Items(R, a) == Deep(R.v, a)
Values(R) == Items(R, R.d - 1)
TotSize(R, a) == Len(Items(R, a))
Lens(R, a) == LET I == Items(R, a) IN [i \in 1..Len(I) |-> Len(I[i])]         \* a < d - 1
RECURSIVE Scan(_, _)                       \* exclusive prefix sums with the total appended
Scan(S, x) == IF S = <<>> THEN <<x>> ELSE <<x>> \o Scan(Tail(S), x + Head(S))
Splits(R, a) == Scan(Lens(R, a - 1), 0)                                        \* 1 <= a < d
Ids(R, a) == LET l == Lens(R, a - 1) IN CatAll([i \in 1..Len(l) |-> [k \in 1..l[i] |-> i - 1]])
MaxOf(S) == IF S = <<>> THEN 0 ELSE CHOOSE x \in {S[i] : i \in 1..Len(S)} : \A i \in 1..Len(S) : S[i] <= x
Views(R) == [d |-> R.d, sizes |-> [a \in 1..R.d |-> TotSize(R, a - 1)], splits |-> [a \in 1..(R.d - 1) |-> Splits(R, a)],
             ids |-> [a \in 1..(R.d - 1) |-> Ids(R, a)], maxs |-> [a \in 1..(R.d - 1) |-> MaxOf(Lens(R, a - 1))],
             values |-> Values(R), n |-> Len(Values(R)), d0 |-> Len(R.v)]
(* ---- building from views ---- *)
Group(S, splits) == [i \in 1..(Len(splits) - 1) |-> SubSeq(S, splits[i] + 1, splits[i + 1])]
RECURSIVE Build(_, _, _)
Build(splits, values, a) == IF a = 0 THEN values ELSE Build(splits, Group(values, splits[a]), a - 1)
FromViews(o) == [d |-> o.d, v |-> Build(o.splits, o.values, o.d - 1)]
RightSplits(s) == Len(s) >= 1 /\ s[1] = 0 /\ \A i \in 1..(Len(s) - 1) : s[i] <= s[i + 1]
WellFormedViews(o) ==                       \* enough for FromViews to make sense
  Len(o.splits) = o.d - 1 /\ o.d >= 2 /\ \A a \in 1..(o.d - 1) : RightSplits(o.splits[a]) /\
  o.splits[a][Len(o.splits[a])] = (IF a = o.d - 1 THEN Len(o.values) ELSE Len(o.splits[a + 1]) - 1)
\* the whole list with the items of axis a replaced, one for one, by those of S
RECURSIVE Up(_, _, _)
Up(R, S, a) == IF a = 0 THEN S ELSE Up(R, Group(S, Splits(R, a)), a - 1)
WithValues(R, S) == [d |-> R.d, v |-> Up(R, S, R.d - 1)]
Numbered(R) == WithValues(R, [i \in 1..Len(Values(R)) |-> i - 1])
NumberedSrc(R, s, n) == WithValues(R, [i \in 1..Len(Values(R)) |-> (i - 1) * n + s])      \* as in merge maps: source s of n
Zeros(R) == WithValues(R, [i \in 1..Len(Values(R)) |-> 0])
Rag(d, v) == [d |-> d, v |-> v]
EmptyR(d) == Rag(d, <<>>)
Mapped(R, a, F(_)) == Rag(R.d, Up(R, LET I == Items(R, a) IN [i \in 1..Len(I) |-> F(I[i])], a))
(* ---- structure operations ---- *)
RemoveAxis(R, k) == IF k = 0 THEN Rag(R.d - 1, CatAll(R.v))
                    ELSE LET I == Items(R, k - 1) IN Rag(R.d - 1, Up(R, [i \in 1..Len(I) |-> CatAll(I[i])], k - 1))
RemoveLastAxis(R) == Rag(R.d - 1, Up(R, [i \in 1..TotSize(R, R.d - 2) |-> 0], R.d - 2))
Arange(R, a, b, e) == Rag(R.d - a, SubSeq(Items(R, a), b + 1, e))
Prefix(R, n) == Rag(R.d, SubSeq(R.v, 1, n))
\* keep of the items of axis a (their positions, 0-based, in an order that does not mix the lists of earlier axes) those listed
IndexAxis(R, a, idx) ==
  IF a = 0 THEN Rag(R.d, [i \in 1..Len(idx) |-> IF idx[i] < 0 THEN <<>> ELSE R.v[idx[i] + 1]])
  ELSE LET I == Items(R, a)  ids == Ids(R, a)
           pick(j) == SelectSeq(idx, LAMBDA x : ids[x + 1] = j)
           new == [j \in 1..TotSize(R, a - 1) |-> LET p == pick(j - 1) IN [t \in 1..Len(p) |-> I[p[t] + 1]]]
       IN Rag(R.d, Up(R, new, a - 1))
IndexAllowed(R, a, idx) ==
  (\A i \in 1..Len(idx) : (IF a = 0 THEN -1 ELSE 0) <= idx[i] /\ idx[i] < TotSize(R, a)) /\
  (a = 0 \/ \A i \in 1..(Len(idx) - 1) : Ids(R, a)[idx[i] + 1] <= Ids(R, a)[idx[i + 1] + 1])
\* each index of the ragged tensor X replaced by the list of R it names: one more axis
IndexRagged(R, X) == LET x == Values(X) IN Rag(X.d + R.d - 1, Up(X, [i \in 1..Len(x) |-> IF x[i] < 0 THEN <<>> ELSE R.v[x[i] + 1]], X.d - 1))
Positions(keep) == SelectSeq([i \in 1..Len(keep) |-> i], LAMBDA i : keep[i] = 1)
New2Old(keep) == LET p == Positions(keep) IN [i \in 1..Len(p) |-> p[i] - 1]
Old2New(keep) == SubSeq(Scan(keep, 0), 1, Len(keep))
Subset(R, a, keep) == IndexAxis(R, a, New2Old(keep))
NonEmpty(R, a) == LET I == Items(R, a) IN [i \in 1..Len(I) |-> IF Len(I[i]) > 0 THEN 1 ELSE 0]
CatAxis(Rs, a) ==
  IF a = 0 THEN Rag(Rs[1].d, CatAll([k \in 1..Len(Rs) |-> Rs[k].v]))
  ELSE Rag(Rs[1].d, Up(Rs[1], [i \in 1..TotSize(Rs[1], a - 1) |-> CatAll([k \in 1..Len(Rs) |-> Items(Rs[k], a - 1)[i]])], a - 1))
StackAxis(Rs, a) ==
  IF a = 0 THEN Rag(Rs[1].d + 1, [k \in 1..Len(Rs) |-> Rs[k].v])
  ELSE Rag(Rs[1].d + 1, Up(Rs[1], [i \in 1..TotSize(Rs[1], a - 1) |-> [k \in 1..Len(Rs) |-> Items(Rs[k], a - 1)[i]]], a - 1))
\* the same lists, with the same lengths, on all axes before a
SameBefore(Rs, a) == \A k \in 1..Len(Rs) : Rs[k].d = Rs[1].d /\ \A b \in 0..(a - 1) : IF b = 0 THEN Len(Rs[k].v) = Len(Rs[1].v) ELSE Splits(Rs[k], b) = Splits(Rs[1], b)
Sources(Rs) == [k \in 1..Len(Rs) |-> NumberedSrc(Rs[k], k - 1, Len(Rs))]
Unstack(R, a, right) ==
  IF a = 0 THEN [i \in 1..Len(R.v) |-> IF R.d = 2 THEN Rag(2, <<R.v[i]>>) ELSE Rag(R.d - 1, R.v[i])]
  ELSE LET I == Items(R, a - 1)  m == MaxOf(Lens(R, a - 1)) IN
  IF a < R.d - 1
    THEN [j \in 1..m |-> Rag(R.d - 1, Up(R, [i \in 1..Len(I) |-> LET p == IF right THEN j ELSE j - (m - Len(I[i])) IN
                                                                  IF p >= 1 /\ p <= Len(I[i]) THEN I[i][p] ELSE <<>>], a - 1))]
    ELSE [j \in 1..m |->
           LET pos(i) == IF right THEN j ELSE j - (m - Len(I[i]))
               has(i) == pos(i) >= 1 /\ pos(i) <= Len(I[i])
               col(is) == [t \in 1..Len(is) |-> I[is[t]][pos(is[t])]]
               rows == IF R.d = 2 THEN <<[i \in 1..Len(I) |-> i]>>
                       ELSE Group([i \in 1..Len(I) |-> i], Splits(R, R.d - 2))
               out == [r \in 1..Len(rows) |-> col(SelectSeq(rows[r], has))]
           IN IF R.d = 2 THEN Rag(2, out) ELSE Rag(R.d - 1, IF R.d = 3 THEN out ELSE Up(R, out, R.d - 3))]
AddSuffix(R, s) == LET I == Items(R, R.d - 2) IN Rag(R.d, Up(R, [i \in 1..Len(I) |-> Append(I[i], s[i])], R.d - 2))
AddPrefix(R, s) == LET I == Items(R, R.d - 2) IN Rag(R.d, Up(R, [i \in 1..Len(I) |-> <<s[i]>> \o I[i]], R.d - 2))
\* a = 0: the whole becomes the only element of a list; a > 0: every item of axis a becomes the only element of a list
Unsqueeze(R, a) == IF a = 0 THEN Rag(R.d + 1, <<R.v>>) ELSE LET I == Items(R, a) IN Rag(R.d + 1, Up(R, [i \in 1..Len(I) |-> <<I[i]>>], a))
Layer(R, k) == Rag(2, LET I == Items(R, k) IN [i \in 1..Len(I) |-> [j \in 1..Len(I[i]) |-> 0]])
TopOf(R, a) == Rag(a + 1, Up(R, [i \in 1..TotSize(R, a) |-> 0], a))
BottomOf(R, a) == Rag(R.d - a, Items(R, a))
Compose(A, B) == Rag(A.d + B.d - 1, Up(A, B.v, A.d - 1))
Offsets(Rs) == [i \in 1..(Rs[1].d + 1) |-> Scan([k \in 1..Len(Rs) |-> IF i = 1 THEN 1 ELSE TotSize(Rs[k], i - 2)], 0)]
PadTo(S, n, x) == [i \in 1..n |-> IF i <= Len(S) THEN S[i] ELSE x]
MakeTransposable(R) == LET m == MaxOf(Lens(R, 0)) IN Rag(R.d, [i \in 1..Len(R.v) |-> PadTo(R.v[i], m, <<>>)])
Transposable(R) == R.d > 2 /\ Len(R.v) > 0 /\ \A i \in 1..Len(R.v) : Len(R.v[i]) = Len(R.v[1])
Transpose(R) == Rag(R.d, [j \in 1..Len(R.v[1]) |-> [i \in 1..Len(R.v) |-> R.v[i][j]]])
Merge(Rs, mm) == Rag(Rs[1].d, [i \in 1..Len(mm) |-> Rs[(mm[i] % Len(Rs)) + 1].v[(mm[i] \div Len(Rs)) + 1]])
ChangeSize(R, dl, pinned) ==
  LET l == Lens(R, R.d - 2)
      new(n) == IF pinned /\ n = 0 THEN 0 ELSE IF n + dl < 0 THEN 0 ELSE n + dl
  IN Rag(R.d, Up(R, [i \in 1..Len(l) |-> [k \in 1..new(l[i]) |-> 0]], R.d - 2))
Cover(Rs) == Rag(2, [i \in 1..Len(Rs[1].v) |-> [k \in 1..MaxOf([s \in 1..Len(Rs) |-> Len(Rs[s].v[i])]) |-> 0]])
CoverMap(R, C) == CatAll([i \in 1..Len(C.v) |-> [k \in 1..Len(C.v[i]) |-> IF k <= Len(R.v[i]) THEN Splits(R, 1)[i] + k - 1 ELSE -1]])
IsPermOf(p, n) == Len(p) = n /\ {p[i] : i \in 1..n} = 0..(n - 1)
FilterVals(R, F(_)) == LET I == Items(R, R.d - 2) IN Rag(R.d, Up(R, [i \in 1..Len(I) |-> SelectSeq(I[i], F)], R.d - 2))
Regular(a, b) == Rag(2, [i \in 1..a |-> [j \in 1..b |-> 0]])
\* padding to a matrix: rows of the widest length
PadRows(R, repl, x, left) ==
  LET m == MaxOf(Lens(R, 0)) IN
  [i \in 1..Len(R.v) |-> LET S == R.v[i]  n == Len(S)
                             f == IF repl /\ n > 0 THEN (IF left THEN S[1] ELSE S[n]) ELSE x IN
                         IF left THEN [k \in 1..m |-> IF k <= m - n THEN f ELSE S[k - (m - n)]] ELSE PadTo(S, m, f)]
=============================================================================
