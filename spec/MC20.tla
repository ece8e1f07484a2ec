-------------------------------- MODULE MC20 --------------------------------
(* Every small nested list, grown item by item: the views determine it, and the operations obey the laws that relate them.          *)
EXTENDS K2Ragged
CONSTANTS MaxItems, Depths
VARIABLES R, size
\* a list d deep (d = 1: values) with one more item at its end, at any level
RECURSIVE Grown(_, _, _)
Grown(L, d, x) ==
  IF d = 1 THEN {Append(L, x)}
  ELSE {Append(L, <<>>)} \cup (IF L = <<>> THEN {} ELSE {[L EXCEPT ![Len(L)] = g] : g \in Grown(L[Len(L)], d - 1, x)})
Init == \E d \in Depths : R = EmptyR(d) /\ size = 0
Grow == size < MaxItems /\ \E g \in Grown(R.v, R.d, size) : R' = Rag(R.d, g) /\ size' = size + 1
Next == Grow
Eq(A, C) == A.d = C.d /\ A.v = C.v
All(n) == [i \in 1..n |-> i - 1]
ViewsDetermine == LET w == Views(R) IN WellFormedViews(w) /\ Eq(FromViews(w), R) /\ \A a \in 1..(R.d - 1) :
  /\ Len(w.splits[a]) = w.sizes[a] + 1 /\ Len(w.ids[a]) = w.sizes[a + 1]
  /\ \A i \in 1..Len(w.ids[a]) : w.splits[a][w.ids[a][i] + 1] < i /\ i <= w.splits[a][w.ids[a][i] + 2]
UnstackStack ==
  /\ R.d > 2 /\ R.v # <<>> => Eq(StackAxis(Unstack(R, 0, TRUE), 0), R)
  /\ \A a \in 1..(R.d - 2) : LET l == Lens(R, a - 1) IN
       (l # <<>> /\ (\A i \in 1..Len(l) : l[i] = l[1]) /\ l[1] > 0) => \A right \in BOOLEAN : Eq(StackAxis(Unstack(R, a, right), a), R)
\* nothing is lost or duplicated by unstacking, and the maps say where it went
UnstackAll == \A a \in 0..(R.d - 1) : \A right \in BOOLEAN :
  LET U == Unstack(R, a, right)  N == Unstack(Numbered(R), a, right)
      m == CatAll([i \in 1..Len(N) |-> Values(N[i])]) IN
  IsPermOf(m, Len(Values(R))) /\ \A i \in 1..Len(U) : Values(U[i]) = [k \in 1..Len(Values(N[i])) |-> Values(R)[Values(N[i])[k] + 1]]
ComposeDecompose == \A a \in 1..(R.d - 2) : Eq(Compose(TopOf(R, a), BottomOf(R, a)), R)
UnsqueezeRemove == \A a \in 0..(R.d - 1) : Eq(RemoveAxis(Unsqueeze(R, a), a), R)
CatSplit == \A k \in 0..Len(R.v) : Eq(CatAxis(<<Prefix(R, k), Arange(R, 0, k, Len(R.v))>>, 0), R)
IndexAll == \A a \in 0..(R.d - 1) : Eq(IndexAxis(R, a, All(TotSize(R, a))), R)
DropEmpty == \A a \in 0..(R.d - 2) : LET S == Subset(R, a, NonEmpty(R, a)) IN
  /\ \A b \in 0..(R.d - 1) : b = a \/ TotSize(S, b) = TotSize(R, b)
  /\ \A i \in 1..Len(Items(S, a)) : Items(S, a)[i] # <<>>
TransposeTwice == LET T == MakeTransposable(R) IN R.d > 2 => Values(T) = Values(R) /\ (T.v # <<>> /\ T.v[1] # <<>> => Transposable(T) /\ Eq(Transpose(Transpose(T)), T))
CatMaps == \A a \in 0..(R.d - 1) :
  LET Rs == <<R, WithValues(R, [i \in 1..Len(Values(R)) |-> 50 + i])>>
      m == Values(CatAxis(Sources(Rs), a))  w == Values(CatAxis(Rs, a)) IN
  Len(w) = 2 * Len(Values(R)) /\ \A i \in 1..Len(w) : w[i] = Values(Rs[(m[i] % 2) + 1])[(m[i] \div 2) + 1]
CoverLaw == R.d = 2 => LET C == Cover(<<R, Arange(Rag(2, R.v \o R.v), 0, Len(R.v), 2 * Len(R.v))>>) IN Splits(C, 1) = Splits(R, 1) /\ CoverMap(R, C) = All(Len(Values(R)))
RECURSIVE Depth2(_, _)
Depth2(A, k) == IF k = R.d THEN A ELSE Depth2(Compose(A, Layer(R, k - 1)), k + 1)
LayersCompose == Eq(Depth2(Layer(R, 0), 2), Zeros(R))
=============================================================================
