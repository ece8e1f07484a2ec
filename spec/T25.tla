--------------------------------- MODULE T25 ---------------------------------
(* Recorded best-matching statistics.                                          *)
EXTENDS TraceBase, K2Match
Cl(b, name) == IF b THEN {} ELSE {name}
Abs(a) == IF a < 0 THEN -a ELSE a
SumX(S, f(_)) == FoldSet(LAMBDA u, acc : acc + f(u), 0, S)
\* one collection: tokens of its sentences one after the other, distance of each to the beginning of its sentence
CollF(ev, c) ==
  LET n == Len(c.tok)  X == Backwards(c.tok, ev.eos, ev.max + 1)
      keys == {At(n, p) : p \in {q \in 1..n : c.key[q] = 1}}
      x(u) == c.x[n + 1 - u]  \* score, relative to ev.base
      one(p) ==
        LET t == At(n, p)  m == LongestAt(X, keys, t)  S == MatchedAt(X, keys, t)  N == Cardinality(S)
            s1 == SumX(S, x)
            lo == Min({x(u) : u \in S})
            c1 == SumX(S, LAMBDA u : x(u) - lo)  c2 == SumX(S, LAMBDA u : (x(u) - lo) * (x(u) - lo)) IN
        IF keys = {} THEN Cl(c.mean[p] = -ev.base * ev.K /\ c.var[p] = 0 /\ c.cnt[p] = 0 /\ c.ord[p] = 0, "NoKeys")
        ELSE
          Cl(c.cnt[p] = IF m = 0 THEN 0 ELSE N, "Count") \cup
          Cl(c.ord[p] = OrderAt(m, c.dist[p], ev.order), "Order") \cup
          Cl(Abs(c.mean[p]) <= 30000000 /\ Abs((c.mean[p] * N) - (ev.K * s1)) <= ev.mtol * N, "Mean") \cup
          (IF ev.varok = 0 THEN {}
           ELSE Cl(Abs(c.var[p]) <= 100000 /\ Abs((c.var[p] * N * N) - (ev.K * ((N * c2) - (c1 * c1)))) <= ev.vtol * N * N, "Variance")) IN
  Cl(Len(c.mean) = n /\ Len(c.var) = n /\ Len(c.cnt) = n /\ Len(c.ord) = n, "Length") \cup
  (IF Len(c.mean) = n /\ Len(c.var) = n /\ Len(c.cnt) = n /\ Len(c.ord) = n THEN UNION {one(p) : p \in 1..n} ELSE {})
TFailing(ev, s) ==
  CASE ev.op = "match" -> UNION {CollF(ev, ev.c[i]) : i \in 1..Len(ev.c)} \cup Cl(ev.dtypes = <<1, 1, 2, 2>>, "Dtype") \cup Cl(ev.same = 1, "OperandsUnchanged")
    [] ev.op = "Raised" -> {"NoRaise"}
    [] ev.op = "Died" -> {"NoCrash"}
    [] ev.op = "Hang" -> {"Terminates"}
    [] OTHER -> {"UnknownEvent"}
TStep(ev, s) == s
=============================================================================
