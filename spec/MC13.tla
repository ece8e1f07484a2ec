-------------------------------- MODULE MC13 --------------------------------
(* Properties of the search itself, for all small graphs and score rows.     *)
EXTENDS K2Prune
CONSTANTS N, MaxArcs, MaxT, C, W
VARIABLES F, b
Cnt(a, n) == [s \in 1..n |-> Cardinality({k \in 1..Len(a) : a[k][1] = s - 1})]
Mk(a) == [n |-> N, a |-> a, c |-> Cnt(a, N)]
Init == F = Mk(<<>>) /\ b = <<>>
AddArc == b = <<>> /\ Len(F.a) < MaxArcs /\ \E s \in 0..(N - 2), d \in 0..(N - 1), lab \in 0..(C - 1) :
            (d = N - 1 => lab = 0) /\ (F.a # <<>> => F.a[Len(F.a)][1] <= s) /\
            F' = Mk(Append(F.a, <<s, d, IF d = N - 1 THEN -1 ELSE lab, Len(F.a) % 2>>)) /\ UNCHANGED b
AddFrame == Len(b) < MaxT /\ \E r \in [1..C -> W] : b' = Append(b, <<NegInf>> \o r) /\ UNCHANGED F
Next == AddArc \/ AddFrame
Rows == Append(b, FinalRow(C))
T == Len(Rows)
Wide == [D |-> 1000 * U, mina |-> 0, maxa |-> 1000, online |-> 0, part |-> 0]
Tight(m, M, p) == [D |-> U + U \div 2, mina |-> m, maxa |-> M, online |-> 0, part |-> p]
ExactGood(beam2) ==
  LET f == FwdD(F, Rows)  w == BwdD(F, Rows) IN {<<x[1], x[2]>> : x \in {y \in ArcDef(F, Rows, f, w, f[T + 1][Final(F)]) : 2 * y[3] <= beam2}}
Correct ==
  \* a wide search prunes nothing: exactly the lattice of the exact intersection
  /\ \A B \in {1, 3, 7} : LET S == Search(Wide, F, Rows) IN Good(F, Rows, S, Alive(F, Rows, S), T, B) = ExactGood(B)
  /\ \A p \in {Tight(0, 1, 0), Tight(0, 2, 0), Tight(2, 3, 1), Tight(0, 1, 1)} :
       LET S == Search(p, F, Rows)  A == Alive(F, Rows, S) IN
       /\ \A i \in 1..Len(S) : \A s \in States(F) : ~S[T + 1].ps => S[i].V[s] <= FwdD(F, Rows)[i][s]    \* never better than the truth
       /\ \A e \in 1..(T - 1) : \A x \in Good(F, Rows, S, A, e + 1, 3) : x[1] < e => x \in Good(F, Rows, S, A, e, 3)   \* judging early never loses
       /\ LET g == Good(F, Rows, S, A, T, 3) IN
          \A x \in g : (x[1] + 1 = T \/ \E y \in g : y[1] = x[1] + 1 /\ Src(F, y[2]) = Dst(F, x[2])) /\
                       (x[1] = 0 \/ \E y \in g : y[1] = x[1] - 1 /\ Dst(F, y[2]) = Src(F, x[2]))
=============================================================================
