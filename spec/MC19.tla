-------------------------------- MODULE MC19 --------------------------------
(* Small prunings: any wish list of windows is adjusted into one that starts   *)
(* at 0, never moves back, never skips a symbol and still ends at the last     *)
(* symbol; the pruned sum is the sum over the alignments that stay in the kept  *)
(* cells; the lattice of the windows has exactly those alignments.              *)
EXTENDS K2Transducer
CONSTANTS MaxT, MaxS
VARIABLES T, S, r, topo, raw
Init == T \in 1..MaxT /\ S \in 1..MaxS /\ r \in 1..(MaxS + 1) /\ topo \in {"regular", "modified", "constrained"} /\ raw = <<>>
        /\ r <= S + 1 /\ (topo = "regular" => r >= MinRange(S, T)) /\ (topo # "regular" => S <= T)
Want(s) == Len(raw) < T /\ s <= S + 1 - r /\ raw' = Append(raw, IF Len(raw) = T - 1 THEN S + 1 - r ELSE s) /\ UNCHANGED <<T, S, r, topo>>
Next == \E s \in 0..MaxS : Want(s)
w == Adjust(raw, IF topo = "regular" THEN r - 1 ELSE 1)
Full == [t \in 1..T |-> 0]
Joi(ww, rr) == [T |-> T, S |-> S, r |-> rr, w |-> ww, sym |-> [s \in 1..S |-> 1], blank |-> 0, hat |-> 0, N |-> 5, M |-> 1,
                e |-> [t \in 1..T |-> [k \in 1..rr |-> <<2 + ((ww[t] + k + t) % 2), 1 + ((ww[t] + k + t) % 3)>>]]]
b == <<0, 0, S, T>>
mod == JMod(topo)
\* the cell in which a step is emitted is kept (constrained: also the one whose blank is taken)
Inside(z) == \A i \in 1..Len(z) : LET j == Joi(w, r) IN Kept(j, z[i][2], z[i][3]) /\ (topo = "constrained" /\ z[i][1] = "x" => Kept(j, z[i][2] + 1, z[i][3]))
Correct ==
  Len(raw) = T =>
  LET J == Joi(w, r)  K == Joi(Full, S + 1)
      Z == {z \in Ways(mod, b, 0, 0) : \A i \in 1..Len(z) : z[i][1] = "x" => z[i][3] < T}
      keep == {z \in Z : Inside(z)}
      X == JX(K, topo, 0, b)  Y == JY(K) IN
  /\ GoodWindows(w, IF topo = "regular" THEN r - 1 ELSE 1)
  /\ w[T] + r - 1 = S \/ (topo # "regular" /\ r = 1 /\ S = T)
  /\ LTotal(mod, b, JX(J, topo, 0, b), JY(J)) = FoldSet(LAMBDA z, m : m + WayW(X, Y, z), 0, keep)
  /\ (topo = "constrained" /\ r = 1) \/ keep # {}
  /\ r = S + 1 => keep = Z
  /\ topo = "regular" =>
       LatPaths(w, r, T, 0, 0) = {[k \in 1..(Len(z) - 1) |-> <<IF z[k][1] = "x" THEN 1 ELSE 0, z[k][2], z[k][3]>>] : z \in keep}
=============================================================================
