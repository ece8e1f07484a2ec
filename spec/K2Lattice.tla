------------------------------ MODULE K2Lattice ------------------------------
(* The s-t lattice of transducer-like losses.  X[s+1][t+1]: weight of the step *)
(* that takes a symbol at (s,t), Y[s+1][t+1]: of the step that takes a frame   *)
(* there.  A symbol step leads to (s+1,t) or, modified, to (s+1,t+1).          *)
(* b = <<s0, t0, s1, t1>>: the rectangle, from its first to its last corner.   *)
EXTENDS K2Wfsa
Moves(mod, s, t) == {<<"x", s + 1, IF mod THEN t + 1 ELSE t>>, <<"y", s, t + 1>>}
\* ---- declaratively: the paths, as sequences of steps <<kind, s, t>> (where each starts)
RECURSIVE Ways(_, _, _, _)
Ways(mod, b, s, t) ==
  (IF s = b[3] /\ t = b[4] THEN {<<>>} ELSE {}) \cup
  UNION {IF m[2] > b[3] \/ m[3] > b[4] THEN {} ELSE {<<<<m[1], s, t>>>> \o z : z \in Ways(mod, b, m[2], m[3])} : m \in Moves(mod, s, t)}
W(X, Y, e) == IF e[1] = "x" THEN X[e[2] + 1][e[3] + 1] ELSE Y[e[2] + 1][e[3] + 1]
WayW(X, Y, z) == FoldLeft(LAMBDA m, e : m * W(X, Y, e), 1, z)
\* ---- by recurrence, row by row; f[<<s, t>>]
Cells(b) == {<<s, t>> : s \in b[1]..b[3], t \in b[2]..b[4]}
Order(b) == [k \in 1..((b[3] - b[1] + 1) * (b[4] - b[2] + 1)) |-> <<b[1] + ((k - 1) \div (b[4] - b[2] + 1)), b[2] + ((k - 1) % (b[4] - b[2] + 1))>>]
In(b, c) == c[1] >= b[1] /\ c[1] <= b[3] /\ c[2] >= b[2] /\ c[2] <= b[4]
Fwd(mod, b, X, Y) ==
  FoldLeft(LAMBDA f, c :
    LET s == c[1]  t == c[2]  px == IF mod THEN <<s - 1, t - 1>> ELSE <<s - 1, t>>  py == <<s, t - 1>>
        v == (IF In(b, px) THEN f[px] * X[px[1] + 1][px[2] + 1] ELSE 0) + (IF In(b, py) THEN f[py] * Y[py[1] + 1][py[2] + 1] ELSE 0)
    IN (c :> (IF c = <<b[1], b[2]>> THEN 1 ELSE v)) @@ f, [c \in {} |-> 0], Order(b))
Bwd(mod, b, X, Y) ==
  FoldLeft(LAMBDA f, c :
    LET s == c[1]  t == c[2]  px == IF mod THEN <<s + 1, t + 1>> ELSE <<s + 1, t>>  py == <<s, t + 1>>
        v == (IF In(b, px) THEN f[px] * X[s + 1][t + 1] ELSE 0) + (IF In(b, py) THEN f[py] * Y[s + 1][t + 1] ELSE 0)
    IN (c :> (IF c = <<b[3], b[4]>> THEN 1 ELSE v)) @@ f, [c \in {} |-> 0], Reverse(Order(b)))
LTotal(mod, b, X, Y) == Fwd(mod, b, X, Y)[<<b[3], b[4]>>]
\* weight of all paths through the step of that kind at (s, t); 0 outside
XOcc(mod, b, X, F, B, s, t) ==
  LET d == IF mod THEN <<s + 1, t + 1>> ELSE <<s + 1, t>> IN IF In(b, <<s, t>>) /\ In(b, d) THEN F[<<s, t>>] * X[s + 1][t + 1] * B[d] ELSE 0
YOcc(b, Y, F, B, s, t) == IF In(b, <<s, t>>) /\ In(b, <<s, t + 1>>) THEN F[<<s, t>>] * Y[s + 1][t + 1] * B[<<s, t + 1>>] ELSE 0
=============================================================================
