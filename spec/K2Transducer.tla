---------------------------- MODULE K2Transducer ----------------------------
(* Transducer losses as weighted path sums over the s-t lattice, and pruning.  *)
(* A joiner j gives at each kept cell (s,t) a positive integer weight per      *)
(* class, out of a constant total j.N:                                        *)
(*   j = [T, S, r, w, e, sym, blank, hat, N]                                    *)
(* w[t+1]: first kept symbol position of frame t, r: how many are kept,        *)
(* e[t+1][k+1][c+1]: weight of class c in the cell (w[t+1]+k, t).               *)
EXTENDS K2Lattice
Kept(j, s, t) == t >= 0 /\ t < j.T /\ s >= j.w[t + 1] /\ s < j.w[t + 1] + j.r
\* HAT: class 0 is the blank with probability e/N; the others share the rest in proportion to their weights, which sum to j.M
ClassW(j, s, t, c) ==
  IF ~Kept(j, s, t) THEN 0
  ELSE LET row == j.e[t + 1][s - j.w[t + 1] + 1] IN
       IF j.hat = 0 THEN row[c + 1] ELSE IF c = 0 THEN row[1] * j.M ELSE (j.N - row[1]) * row[c + 1]
JSym(j, s, t) == ClassW(j, s, t, j.sym[s + 1])
JBlank(j, s, t) == ClassW(j, s, t, j.blank)
JMod(topo) == topo # "regular"
\* penalty of a symbol at frame t: proportional to 2^(T-1-t) when on
Late(j, delay, t) == IF delay = 0 THEN 1 ELSE 2 ^ (j.T - 1 - t)
JX(j, topo, delay, b) ==
  [s \in 1..j.S |-> [t \in 1..(IF JMod(topo) THEN j.T ELSE j.T + 1) |->
     IF t - 1 >= j.T \/ (topo = "regular" /\ t - 1 = b[4]) THEN 0
     ELSE JSym(j, s - 1, t - 1) * Late(j, delay, t - 1) * (IF topo = "constrained" THEN JBlank(j, s, t - 1) ELSE 1)]]
JY(j) == [s \in 1..(j.S + 1) |-> [t \in 1..j.T |-> JBlank(j, s - 1, t - 1)]]
\* ---- pruning windows
MinRange(SE, TE) == IF SE = 0 THEN 2 ELSE ((SE - 1) \div TE) + 2
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : y >= x
\* the windows closest to the wanted ones that never move back, move at most `step` and start at 0
Adjust(raw, step) ==
  LET n == Len(raw)
      m == [t \in 1..n |-> MinOf({raw[u] : u \in t..n})] IN
  [t \in 1..n |-> MinOf({step * (t - 1), MaxOf({m[u] - step * (u - t) : u \in t..n})})]
GoodWindows(w, step) == w[1] = 0 /\ \A t \in 1..(Len(w) - 1) : w[t] <= w[t + 1] /\ w[t + 1] - w[t] <= step
\* ---- the alignments of a lattice made from windows: steps <<symbol?, s, t>> from (w[1],0) to the last kept cell of the last frame
RECURSIVE LatPaths(_, _, _, _, _)
LatPaths(w, r, n, s, t) ==
  (IF t = n - 1 /\ s = w[n] + r - 1 THEN {<<>>} ELSE {}) \cup
  (IF s < w[t + 1] + r - 1 THEN {<<<<1, s, t>>>> \o z : z \in LatPaths(w, r, n, s + 1, t)} ELSE {}) \cup
  (IF t < n - 1 /\ s >= w[t + 2] THEN {<<<<0, s, t>>>> \o z : z \in LatPaths(w, r, n, s, t + 1)} ELSE {})
=============================================================================
