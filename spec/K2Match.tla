------------------------------- MODULE K2Match -------------------------------
(* Matching a token and what precedes it against other tokens of the same      *)
(* collection of sentences (get_best_matching_stats).                           *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt
\* all tokens of the collection read backwards, then the padding eos, then a symbol that occurs nowhere else
Backwards(toks, eos, term) == Reverse(toks) \o <<eos, term>>
RECURSIVE CommonFrom(_, _, _)
CommonFrom(X, a, b) == IF a > Len(X) \/ b > Len(X) THEN 0 ELSE IF X[a] # X[b] THEN 0 ELSE 1 + CommonFrom(X, a + 1, b + 1)
\* place of token p (1..n) in the backwards text
At(n, p) == n + 1 - p
\* length of the longest context that place t has in common with a place that gives something to match:
\* a key position, or, when t itself is a key, any other place
LongestAt(X, keys, t) ==
  Max({CommonFrom(X, t, u) : u \in {v \in 1..Len(X) : v # t /\ (v \in keys \/ t \in keys)}})
\* the key positions that share it
MatchedAt(X, keys, t) == LET m == LongestAt(X, keys, t) IN {u \in keys : u = t \/ CommonFrom(X, t, u) >= m}
OrderAt(m, dist, maxOrder) == IF m = 0 THEN 0 ELSE IF m >= dist \/ m > maxOrder THEN maxOrder ELSE m
=============================================================================
