------------------------------ MODULE K2Symbols ------------------------------
(* Symbol tables: t = [eps |-> symbol of id 0, m |-> set of <<id, symbol>>]. Symbols are numbers whose order is that of the symbols.  *)
EXTENDS Integers, Sequences, FiniteSets
SymIds(t) == {p[1] : p \in t.m}
Syms(t) == {p[2] : p \in t.m}
IdOf(t, s) == (CHOOSE p \in t.m : p[2] = s)[1]
SymOf(t, i) == (CHOOSE p \in t.m : p[1] = i)[2]
NextId(t) == 1 + (CHOOSE i \in SymIds(t) : \A j \in SymIds(t) : j <= i)
Fresh(eps) == [eps |-> eps, m |-> {<<0, eps>>}]
Bijection(t) == \A p, q \in t.m : (p[1] = q[1]) <=> (p[2] = q[2])
GoodTable(t) == Bijection(t) /\ <<0, t.eps>> \in t.m /\ \A i \in SymIds(t) : i >= 0
\* adding s; i is the wanted id, given only if has = 1
AddOk(t, s, has, i) == s \in Syms(t) \/ has = 0 \/ (i >= 0 /\ i \notin SymIds(t))
AddId(t, s, has, i) == IF s \in Syms(t) THEN IdOf(t, s) ELSE IF has = 0 THEN NextId(t) ELSE i
AddTo(t, s, has, i) == IF AddOk(t, s, has, i) THEN [t EXCEPT !.m = @ \cup {<<AddId(t, s, has, i), s>>}] ELSE t
\* merging
MergeOk(t, u) == t.eps = u.eps /\ Bijection([eps |-> t.eps, m |-> t.m \cup u.m])
MergeOf(t, u) == [eps |-> t.eps, m |-> t.m \cup u.m]
SameTable(t, u) == t.m = u.m
\* a file: a sequence of <<symbol, id>>; dflt: the symbol that id 0 has when the file does not say
LoadOk(ls, dflt) ==
  (\A i, j \in 1..Len(ls) : i # j => (ls[i][1] # ls[j][1] /\ ls[i][2] # ls[j][2])) /\ (\A i \in 1..Len(ls) : ls[i][2] >= 0) /\
  ((\E i \in 1..Len(ls) : ls[i][2] = 0) \/ (\A i \in 1..Len(ls) : ls[i][1] # dflt))
LoadOf(ls, dflt) ==
  LET m == {<<ls[i][2], ls[i][1]>> : i \in 1..Len(ls)} IN
  IF \E p \in m : p[1] = 0 THEN [eps |-> (CHOOSE p \in m : p[1] = 0)[2], m |-> m] ELSE [eps |-> dflt, m |-> m \cup {<<0, dflt>>}]
\* what the table shows about itself
RECURSIVE Ascending(_)
Ascending(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : \A z \in S : y <= z IN <<x>> \o Ascending(S \ {x})
DumpOf(t) == LET i == Ascending(SymIds(t))  s == Ascending(Syms(t)) IN
  [ids |-> i, syms |-> s, fwd |-> [k \in 1..Len(i) |-> SymOf(t, i[k])], bwd |-> [k \in 1..Len(s) |-> IdOf(t, s[k])], n |-> Cardinality(t.m), eps |-> t.eps]
FileOf(t) == LET i == Ascending(SymIds(t)) IN [k \in 1..Len(i) |-> <<SymOf(t, i[k]), i[k]>>]
=============================================================================
