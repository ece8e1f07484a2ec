-------------------------------- MODULE MC25 ---------------------------------
(* The interval construction behind get_best_matching_stats, step by step:     *)
(* a stack of open intervals of the suffix array, leaves waiting for their      *)
(* parent, intervals numbered as they are closed; then for each interval the    *)
(* tightest enclosing one that contains a key.  Checked against the definition. *)
EXTENDS K2Match, TLC
CONSTANTS MaxLen, Alphabet
EOS == Max(Alphabet)
Term == EOS + 1
VARIABLES toks, keys, i, stack, leaves, ivs, ord, lastiv, nxt, lp, pc, lcpi, lb
vars == <<toks, keys, i, stack, leaves, ivs, ord, lastiv, nxt, lp, pc, lcpi, lb>>
X == Backwards(toks, EOS, Term)
N == Len(X)
RECURSIVE LessFrom(_, _, _)
LessFrom(Y, a, b) == IF a > Len(Y) THEN TRUE ELSE IF b > Len(Y) THEN FALSE ELSE IF Y[a] # Y[b] THEN Y[a] < Y[b] ELSE LessFrom(Y, a + 1, b + 1)
SA == SetToSortSeq(1..N, LAMBDA a, b : a # b /\ LessFrom(X, a, b))
Lcp(k) == IF k = 1 THEN 0 ELSE CommonFrom(X, SA[k - 1], SA[k])
\* positions count from 1; an interval is [lcp, lb, rb, parent]; on the stack "self" is the number given when it was opened
Init ==
  /\ toks \in UNION {[1..n -> Alphabet] : n \in 1..MaxLen}
  /\ keys \in SUBSET (1..Len(toks))
  /\ i = 2 /\ stack = <<[lcp |-> 0, lb |-> 1, self |-> 1]>> /\ leaves = <<>> /\ ivs = <<>> /\ ord = <<>> /\ lastiv = 0 /\ nxt = 2
  /\ lp = <<>> /\ pc = "next" /\ lcpi = 0 /\ lb = 1
Top == stack[Len(stack)]
SetParent(f, k, v) == [f EXCEPT ![k].parent = v]
Begin ==
  /\ pc = "next" /\ i <= N
  /\ lb' = i - 1 /\ lcpi' = Lcp(i) /\ leaves' = Append(leaves, i - 1) /\ pc' = "pop"
  /\ UNCHANGED <<toks, keys, i, stack, ivs, ord, lastiv, nxt, lp>>
Pop ==
  /\ pc = "pop" /\ lcpi < Top.lcp
  /\ LET d == Len(ivs) + 1
         mine == {k \in 1..Len(leaves) : leaves[k] >= Top.lb}
         rest == SubSeq(stack, 1, Len(stack) - 1)
         close == lcpi <= rest[Len(rest)].lcp IN
     /\ lb' = Top.lb
     /\ lp' = [k \in DOMAIN lp \cup {leaves[q] : q \in mine} |-> IF k \in DOMAIN lp THEN lp[k] ELSE d]
     /\ leaves' = SubSeq(leaves, 1, Len(leaves) - Cardinality(mine))
     /\ ivs' = Append(ivs, [lcp |-> Top.lcp, lb |-> Top.lb, rb |-> i - 1, parent |-> IF close THEN rest[Len(rest)].self ELSE 0])
     /\ ord' = [k \in DOMAIN ord \cup {Top.self} |-> IF k \in DOMAIN ord THEN ord[k] ELSE d]
     /\ lastiv' = IF close THEN 0 ELSE Top.self
     /\ stack' = rest
  /\ UNCHANGED <<toks, keys, i, nxt, pc, lcpi>>
Push ==
  /\ pc = "pop" /\ lcpi >= Top.lcp
  /\ IF lcpi > Top.lcp
     THEN /\ ivs' = IF lastiv > 0 THEN SetParent(ivs, ord[lastiv], nxt) ELSE ivs
          /\ stack' = Append(stack, [lcp |-> lcpi, lb |-> lb, self |-> nxt])
          /\ nxt' = nxt + 1 /\ lastiv' = 0
     ELSE UNCHANGED <<ivs, stack, nxt, lastiv>>
  /\ i' = i + 1 /\ pc' = "next"
  /\ UNCHANGED <<toks, keys, leaves, ord, lp, lcpi, lb>>
Finish ==
  /\ pc = "next" /\ i > N
  /\ LET d == Len(ivs) + 1
         o == [k \in DOMAIN ord \cup {1} |-> IF k \in DOMAIN ord THEN ord[k] ELSE d]
         all == Append(ivs, [lcp |-> 0, lb |-> 1, rb |-> N, parent |-> 0]) IN
     /\ ivs' = [k \in 1..d |-> IF k = d THEN all[k] ELSE [all[k] EXCEPT !.parent = o[@]]]
     /\ lp' = [k \in 1..N |-> IF k \in DOMAIN lp THEN lp[k] ELSE d]
     /\ ord' = o
  /\ pc' = "done"
  /\ UNCHANGED <<toks, keys, i, stack, leaves, lastiv, nxt, lcpi, lb>>
Next == Begin \/ Pop \/ Push \/ Finish
Spec == Init /\ [][Next]_vars
\* ---- what the construction must give
KeyPlaces == {At(Len(toks), p) : p \in keys}
OneRoot == Len(stack) >= 1 /\ stack[1].self = 1
HasKey(k) == \E r \in ivs[k].lb..ivs[k].rb : SA[r] \in KeyPlaces
RECURSIVE Tightest(_)
Tightest(k) == IF ivs[k].parent = 0 \/ HasKey(k) THEN k ELSE Tightest(ivs[k].parent)
Groups == {S \in {{u \in 1..N : u = t \/ CommonFrom(X, t, u) >= m} : t \in 1..N, m \in 0..N} : Cardinality(S) >= 2}
Right ==
  pc = "done" =>
    /\ Len(stack) = 1
    /\ {{SA[r] : r \in ivs[k].lb..ivs[k].rb} : k \in 1..Len(ivs)} = Groups /\ Len(ivs) = Cardinality(Groups)
    /\ \A k \in 1..Len(ivs) :
         /\ ivs[k].parent = 0 <=> k = Len(ivs)
         /\ ivs[k].parent # 0 => ivs[k].parent > k /\ ivs[ivs[k].parent].lb <= ivs[k].lb /\ ivs[ivs[k].parent].rb >= ivs[k].rb /\ ivs[ivs[k].parent].lcp < ivs[k].lcp
    /\ (keys # {} =>
         \A p \in 1..Len(toks) :
           LET t == At(Len(toks), p)  r == CHOOSE q \in 1..N : SA[q] = t  k == Tightest(lp[r]) IN
           /\ ivs[k].lcp = LongestAt(X, KeyPlaces, t)
           /\ {SA[q] : q \in ivs[k].lb..ivs[k].rb} \cap KeyPlaces = MatchedAt(X, KeyPlaces, t))
=============================================================================
