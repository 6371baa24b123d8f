-------------------------------- MODULE Bulk --------------------------------
(* What the bulk operations return.  A sequence of elements is given by the  *)
(* array of its keys and the array of the elements' identities (their        *)
(* positions in the input, from 0).                                          *)
EXTENDS Integers, Sequences, SequencesExt
Fun(k) == (3 * k + 1) % 100003
Pred(p, k) == CASE p = 0 -> k % 2 = 0 [] p = 1 -> TRUE [] p = 2 -> FALSE [] p = 3 -> k % 3 = 1 [] p = 4 -> k < 2 [] OTHER -> k % 97 = 5
Same(q, a, b) == CASE q = 0 -> a = b [] q = 1 -> a \div 4 = b \div 4 [] OTHER -> a % 3 = b % 3
Ids(n) == [j \in 1..n |-> j]
Picked(n, P(_)) == SelectSeq(Ids(n), P)
\* keys/ids are exactly the input elements at the (1-based) positions s
Elements(v, s, keys, ids) ==
  /\ Len(keys) = Len(s) /\ Len(ids) = Len(s)
  /\ \A j \in 1..Len(s) : ids[j] = s[j] - 1 /\ keys[j] = v[s[j]]
Once(c, n) == Len(c) = n /\ \A j \in 1..n : c[j] = 1
Mapped(v, o) == Len(o) = Len(v) /\ \A j \in 1..Len(v) : o[j] = Fun(v[j])
=============================================================================
