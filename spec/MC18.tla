-------------------------------- MODULE MC18 --------------------------------
(* Small lattices with all weights from a small set: the recurrence sums the   *)
(* declared paths, and the occupations are the sums of the paths through the   *)
(* step; nothing outside the rectangle matters.                                *)
EXTENDS K2Lattice
CONSTANTS Shapes, Wts
VARIABLES sh, wx, wy
nX == sh.S * (IF sh.mod THEN sh.T ELSE sh.T + 1)
nY == (sh.S + 1) * sh.T
Init == sh \in Shapes /\ wx = <<>> /\ wy = <<>>
SetX == Len(wx) < nX /\ \E v \in Wts : wx' = Append(wx, v) /\ UNCHANGED <<sh, wy>>
SetY == Len(wx) = nX /\ Len(wy) < nY /\ \E v \in Wts : wy' = Append(wy, v) /\ UNCHANGED <<sh, wx>>
Next == SetX \/ SetY
X == LET c == IF sh.mod THEN sh.T ELSE sh.T + 1 IN [s \in 1..sh.S |-> [t \in 1..c |-> wx[(s - 1) * c + t]]]
Y == [s \in 1..(sh.S + 1) |-> [t \in 1..sh.T |-> wy[(s - 1) * sh.T + t]]]
Correct ==
  Len(wx) = nX /\ Len(wy) = nY =>
  LET b == sh.b  Z == Ways(sh.mod, b, b[1], b[2])  F == Fwd(sh.mod, b, X, Y)  B == Bwd(sh.mod, b, X, Y)
      sum(S) == FoldSet(LAMBDA z, m : m + WayW(X, Y, z), 0, S) IN
  /\ LTotal(sh.mod, b, X, Y) = sum(Z) /\ B[<<b[1], b[2]>>] = sum(Z)
  /\ \A s \in 0..(sh.S - 1), t \in 0..(IF sh.mod THEN sh.T - 1 ELSE sh.T) : XOcc(sh.mod, b, X, F, B, s, t) = sum({z \in Z : <<"x", s, t>> \in ToSet(z)})
  /\ \A s \in 0..sh.S, t \in 0..(sh.T - 1) : YOcc(b, Y, F, B, s, t) = sum({z \in Z : <<"y", s, t>> \in ToSet(z)})
Sh(S, T, m, b) == [S |-> S, T |-> T, mod |-> m, b |-> b]
QuickShapes == {Sh(0, 0, FALSE, <<0, 0, 0, 0>>), Sh(0, 2, TRUE, <<0, 0, 0, 2>>), Sh(2, 0, FALSE, <<0, 0, 2, 0>>), Sh(1, 1, FALSE, <<0, 0, 1, 1>>), Sh(1, 2, FALSE, <<0, 0, 1, 2>>),
                Sh(2, 1, FALSE, <<0, 0, 2, 1>>), Sh(1, 2, TRUE, <<0, 0, 1, 2>>), Sh(2, 1, FALSE, <<1, 0, 2, 1>>), Sh(1, 2, FALSE, <<0, 1, 1, 2>>), Sh(1, 2, TRUE, <<1, 0, 1, 2>>),
                Sh(1, 2, FALSE, <<0, 0, 0, 1>>)}
DeepShapes == {Sh(2, 2, FALSE, <<0, 0, 2, 2>>), Sh(2, 2, TRUE, <<0, 0, 2, 2>>), Sh(2, 2, FALSE, <<0, 1, 1, 2>>), Sh(2, 3, TRUE, <<0, 0, 2, 3>>), Sh(2, 2, TRUE, <<1, 0, 2, 2>>)}
QuickW == {0, 1, 3}
DeepW == {1, 2}
=============================================================================
