------------------------------- MODULE K2Text --------------------------------
(* The text forms of an automaton. A text is a sequence of lines, a line a sequence of tokens <<kind, value>>:                        *)
(*   0 an integer, 1 a number that is not an integer (value: eighths), 2 "[", 3 "]", 4 something else, 5 "Inf".                       *)
(* What is read: [ok, F, aux, rag]: F with scores in eighths, aux[i][k] the i'th extra label of arc k, rag[i][k] a list of labels.    *)
EXTENDS K2Props
IsInt(t) == t[1] = 0
IsNum(t) == t[1] \in {0, 1}
Eighths(t) == IF t[1] = 0 THEN t[2] * 8 ELSE t[2]
Bad == [ok |-> FALSE]

\* one bracketed list starting at p: <<position after it, labels>>, <<0, ...>> when there is none
RECURSIVE ListFrom(_, _, _)
ListFrom(t, p, acc) ==
  IF p > Len(t) THEN <<0, <<>>>>
  ELSE IF t[p][1] = 3 THEN <<p + 1, acc>>
  ELSE IF IsInt(t[p]) THEN ListFrom(t, p + 1, Append(acc, t[p][2])) ELSE <<0, <<>>>>
RECURSIVE Lists(_, _, _, _)
Lists(t, p, m, acc) ==
  IF m = 0 THEN <<p, acc>>
  ELSE IF p > Len(t) THEN <<0, acc>>
  ELSE IF t[p][1] # 2 THEN <<0, acc>>
  ELSE LET r == ListFrom(t, p + 1, <<>>) IN IF r[1] = 0 THEN <<0, acc>> ELSE Lists(t, r[1], m - 1, Append(acc, r[2]))

\* src dst label aux... [lists]... [number]   ->   [ok, a, aux, rag]; sign: the factor of the number
ArcLine(t, na, nr, sign) ==
  IF Len(t) < 3 + na THEN Bad
  ELSE IF \E p \in 1..(3 + na) : ~IsInt(t[p]) THEN Bad
  ELSE LET g == Lists(t, 4 + na, nr, <<>>) IN
       IF g[1] = 0 \/ t[1][2] < 0 \/ t[2][2] < 0 THEN Bad
       ELSE LET w == IF g[1] > Len(t) THEN 0 ELSE IF IsNum(t[g[1]]) THEN sign * Eighths(t[g[1]]) ELSE 0
                good == g[1] > Len(t) \/ (g[1] = Len(t) /\ IsNum(t[g[1]]))
            IN IF good THEN [ok |-> TRUE, a |-> <<t[1][2], t[2][2], t[3][2], w>>, aux |-> [p \in 1..na |-> t[3 + p][2]], rag |-> g[2]] ELSE Bad

\* an automaton from lines read in order of source state
Columns(A, na, nr) ==
  [aux |-> [i \in 1..na |-> [k \in 1..Len(A) |-> A[k].aux[i]]], rag |-> [i \in 1..nr |-> [k \in 1..Len(A) |-> A[k].rag[i]]]]
Build(A, n, na, nr) ==
  LET F == [n |-> n, a |-> [k \in 1..Len(A) |-> A[k].a], c |-> [s \in 1..n |-> Cardinality({k \in 1..Len(A) : A[k].a[1] = s - 1})]]
      col == Columns(A, na, nr)
  IN IF IsValid(F, RowOf(F)) THEN [ok |-> TRUE, F |-> F, aux |-> col.aux, rag |-> col.rag] ELSE Bad
MaxState(A) == LET S == {A[k].a[1] : k \in 1..Len(A)} \cup {A[k].a[2] : k \in 1..Len(A)} IN IF S = {} THEN -1 ELSE CHOOSE x \in S : \A y \in S : y <= x

NonBlank(L) == SelectSeq(L, LAMBDA t : t # <<>>)
\* the native format: the last line names the final state
ReadK2(L0, na, nr) ==
  LET L == NonBlank(L0)  m == Len(L) IN
  IF m = 0 THEN Build(<<>>, 0, na, nr)
  ELSE LET A == [k \in 1..(m - 1) |-> ArcLine(L[k], na, nr, 1)] IN
       IF Len(L[m]) # 1 \/ (\E k \in 1..(m - 1) : ~A[k].ok) THEN Bad
       ELSE IF ~IsInt(L[m][1]) THEN Bad
       ELSE LET fin == L[m][1][2] IN
            IF fin < 0 \/ MaxState(A) > fin \/ (\E k \in 1..(m - 2) : A[k].a[1] > A[k + 1].a[1]) \/ (\E k \in 1..(m - 1) : A[k].a[1] = fin) THEN Bad
            ELSE Build(A, fin + 1, na, nr)

\* the OpenFst format: final states with costs in any number, arcs in any order, the first state mentioned is the start
FinalLine(t) ==
  IF Len(t) = 1 /\ IsInt(t[1]) /\ t[1][2] >= 0 THEN [ok |-> TRUE, s |-> t[1][2], w |-> 0, inf |-> FALSE]
  ELSE IF Len(t) = 2 THEN
    (IF IsInt(t[1]) /\ t[1][2] >= 0 /\ (IsNum(t[2]) \/ t[2][1] = 5)
     THEN [ok |-> TRUE, s |-> t[1][2], w |-> IF t[2][1] = 5 THEN 0 ELSE -Eighths(t[2]), inf |-> t[2][1] = 5] ELSE Bad)
  ELSE Bad
RECURSIVE InOrder(_, _)                       \* arcs grouped by source state, otherwise in order
InOrder(A, n) == IF n = 0 THEN <<>> ELSE InOrder(A, n - 1) \o SelectSeq(A, LAMBDA x : x.a[1] = n - 1)
ReadFst(L0, na, nr) ==
  LET L == NonBlank(L0)  m == Len(L)
      isf == {k \in 1..m : FinalLine(L[k]).ok}
      isa == {k \in 1..m : ArcLine(L[k], na, nr, -1).ok}
  IN IF m = 0 THEN Build(<<>>, 0, na, nr)
     ELSE IF isf \cup isa # 1..m THEN Bad
     ELSE LET idx == [k \in 1..m |-> k]
              A == [k \in 1..Len(SelectSeq(idx, LAMBDA j : j \in isa)) |-> ArcLine(L[SelectSeq(idx, LAMBDA j : j \in isa)[k]], na, nr, -1)]
              Z == [k \in 1..Len(SelectSeq(idx, LAMBDA j : j \in isf)) |-> FinalLine(L[SelectSeq(idx, LAMBDA j : j \in isf)[k]])]
              mz == {Z[k].s : k \in 1..Len(Z)}
              top == LET S == mz \cup {MaxState(A)} IN CHOOSE x \in S : \A y \in S : y <= x
              super == top + 1
              live == SelectSeq(Z, LAMBDA z : ~z.inf)
              fins == [k \in 1..Len(live) |-> [a |-> <<live[k].s, super, -1, live[k].w>>, aux |-> [i \in 1..na |-> -1], rag |-> [i \in 1..nr |-> <<>>]]]
              start == L[1][1][2]
              sw(s) == IF s = 0 THEN start ELSE IF s = start THEN 0 ELSE s
              swap == [k \in 1..Len(A \o fins) |-> LET x == (A \o fins)[k] IN [x EXCEPT !.a = <<sw(x.a[1]), sw(x.a[2]), x.a[3], x.a[4]>>]]
          IN Build(InOrder(swap, super + 1), super + 1, na, nr)
Read(L, na, nr, fst) == IF fst = 1 THEN ReadFst(L, na, nr) ELSE ReadK2(L, na, nr)

\* writing: x = [F, aux, rag]
IntTok(v) == <<0, v>>
NumTok(v) == IF v % 8 = 0 THEN <<0, v \div 8>> ELSE <<1, v>>
ListToks(s) == <<<<2, 0>>>> \o [k \in 1..Len(s) |-> IntTok(s[k])] \o <<<<3, 0>>>>
Flat(s) == FoldLeft(LAMBDA x, y : x \o y, <<>>, s)
ArcToks(x, k, sign) ==
  <<IntTok(Src(x.F, k)), IntTok(Dst(x.F, k)), IntTok(Lab(x.F, k))>> \o [i \in 1..Len(x.aux) |-> IntTok(x.aux[i][k])] \o
  Flat([i \in 1..Len(x.rag) |-> ListToks(x.rag[i][k])]) \o <<NumTok(sign * Wt(x.F, k))>>
WriteK2(x) == IF NArcs(x.F) = 0 THEN <<>> ELSE Append([k \in 1..NArcs(x.F) |-> ArcToks(x, k, 1)], <<IntTok(Final(x.F))>>)
WriteFst(x) == [k \in 1..NArcs(x.F) |-> IF Lab(x.F, k) = -1 THEN <<IntTok(Src(x.F, k)), NumTok(-Wt(x.F, k))>> ELSE ArcToks(x, k, -1)]
Write(x, fst) == IF fst = 1 THEN WriteFst(x) ELSE WriteK2(x)

\* the tensor form of one automaton: its arcs; the number of states is the one the final arcs tell, else the least that fits
FinOf(A) == LET fs == {A[k][2] : k \in {j \in 1..Len(A) : A[j][3] = -1}} IN IF fs # {} THEN fs ELSE {1 + MaxState([k \in 1..Len(A) |-> [a |-> A[k]]])}
FromArcs(A) ==
  IF A = <<>> THEN [ok |-> TRUE, F |-> [n |-> 0, a |-> <<>>, c |-> <<>>]]
  ELSE IF Cardinality(FinOf(A)) # 1 THEN Bad
  ELSE LET fin == CHOOSE x \in FinOf(A) : TRUE
           F == [n |-> fin + 1, a |-> A, c |-> [s \in 1..(fin + 1) |-> Cardinality({k \in 1..Len(A) : A[k][1] = s - 1})]]
       IN IF fin >= 1 /\ (\A k \in 1..Len(A) : A[k][1] \in 0..(fin - 1)) /\ (\A k \in 1..(Len(A) - 1) : A[k][1] <= A[k + 1][1])
          THEN (IF IsValid(F, RowOf(F)) THEN [ok |-> TRUE, F |-> F] ELSE Bad) ELSE Bad
\* the tensor form of a batch: number, 0, ends of states, ends of arcs, then the arcs
Ends(S, size(_)) == [k \in 1..(Len(S) + 1) |-> SumSeq([i \in 1..(k - 1) |-> size(S[i])])]
Header(S) == <<Len(S), 0>> \o Ends(S, LAMBDA F : F.n) \o Ends(S, LAMBDA F : NArcs(F))
=============================================================================
