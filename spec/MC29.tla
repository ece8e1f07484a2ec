-------------------------------- MODULE MC29 --------------------------------
(* Handles that share arcs: the store of cells refines the store of values   *)
(* as long as only the documented setter writes into a shared cell.          *)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS Handles, Labels, MaxCells
VARIABLES cell, mem, aux, val, share
vars == <<cell, mem, aux, val, share>>
\* cell: name -> cell (0 unbound); mem: cell -> label; aux: name -> label; val: the values an observer should see
Bd == {n \in Handles : cell[n] # 0}
Init == cell = [n \in Handles |-> 0] /\ mem = [c \in 1..MaxCells |-> 0] /\ aux = [n \in Handles |-> 0] /\ val = [n \in Handles |-> <<0, 0>>] /\ share = {}
Free == {c \in 1..MaxCells : \A n \in Handles : cell[n] # c}
Fresh == CHOOSE c \in Free : TRUE
New(n, x, y) == Free # {} /\ cell' = [cell EXCEPT ![n] = Fresh] /\ mem' = [mem EXCEPT ![Fresh] = x] /\ aux' = [aux EXCEPT ![n] = y] /\ val' = [val EXCEPT ![n] = <<x, y>>]
                /\ share' = {p \in share : n \notin p}
Alias(n, m) == n # m /\ m \in Bd /\ cell' = [cell EXCEPT ![n] = cell[m]] /\ aux' = [aux EXCEPT ![n] = aux[m]] /\ mem' = mem /\ val' = [val EXCEPT ![n] = val[m]]
                /\ share' = {p \in share : n \notin p} \cup {{n, m}} \cup {{n, k} : k \in {z \in Handles : {m, z} \in share /\ z # n}}
Invert(n) == n \in Bd /\ Free # {} /\ cell' = [cell EXCEPT ![n] = Fresh] /\ mem' = [mem EXCEPT ![Fresh] = aux[n]] /\ aux' = [aux EXCEPT ![n] = mem[cell[n]]]
             /\ val' = [val EXCEPT ![n] = <<val[n][2], val[n][1]>>] /\ share' = {p \in share : n \notin p}
\* writes through the shared cell: every object that shares it sees it
SetLabel(n, x) == n \in Bd /\ mem' = [mem EXCEPT ![cell[n]] = x] /\ UNCHANGED <<cell, aux, share>>
               /\ val' = [m \in Handles |-> IF m = n \/ {m, n} \in share THEN <<x, val[m][2]>> ELSE val[m]]
New_ == \E n \in Handles, x, y \in Labels : New(n, x, y)
Alias_ == \E n, m \in Handles : Alias(n, m)
Invert_ == \E n \in Handles : Invert(n)
SetLabel_ == \E n \in Handles, x \in Labels : SetLabel(n, x)
Next == New_ \/ Alias_ \/ Invert_ \/ SetLabel_
Spec == Init /\ [][Next]_vars
Refines == \A n \in Bd : val[n] = <<mem[cell[n]], aux[n]>>
SharesCells == \A n, m \in Bd : n # m => (({n, m} \in share) <=> cell[n] = cell[m])
=============================================================================
