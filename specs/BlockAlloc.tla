----------------------------- MODULE BlockAlloc -----------------------------
(* A concurrent allocator of fixed-size blocks.                              *)
(* State: the blocks out with a caller (start addresses, units of 8 bytes),  *)
(* the number claimed from the system, the most that were ever out at once,  *)
(* and who has taken part.                                                   *)
(* An allocation may return any address, as long as the block does not       *)
(* overlap one that is out.                                                  *)
EXTENDS Integers, Sequences, FiniteSets
BAInit(p) == { [bl |-> p[1], ll |-> p[2], out |-> {}, most |-> 0, who |-> {}, over |-> FALSE] }
Overlap(s, a) == \E x \in s.out : a < x + s.bl /\ x < a + s.bl
Max(a, b) == IF a > b THEN a ELSE b
BAPost(s, e) ==
  LET k == e[2]  a == e[3]  b == e[4] IN
  CASE k = 2 -> IF b = 1 /\ ~Overlap(s, a) THEN { [s EXCEPT !.out = @ \cup {a}, !.most = Max(@, Cardinality(s.out) + 1), !.who = @ \cup {e[1]}] } ELSE {}
    [] k = 4 -> IF b = 1 /\ a \in s.out THEN { [s EXCEPT !.out = @ \ {a}, !.who = @ \cup {e[1]}] } ELSE {}
    [] k = 6 -> IF a = Cardinality(s.out) THEN { s } ELSE {}
    \* a new list is claimed only when no free one is in the shared pool: what is
    \* free then is in threads' own lists (at most two lists each) or in transit
    [] k = 8 -> IF a >= Cardinality(s.out) /\ a % s.ll = 0 /\ (s.ll = 1 \/ a <= s.most + Cardinality(s.who) * (3 * s.ll + 1) + s.ll) THEN { s } ELSE {}
    [] k = 10 -> IF b = 1 /\ a = (IF s.out = {} THEN 1 ELSE 0) THEN { IF a = 1 THEN [s EXCEPT !.most = 0] ELSE s } ELSE {}
    [] k = 12 -> IF s.out = {} /\ a = 0 THEN { [s EXCEPT !.over = TRUE] } ELSE {}
    [] OTHER -> {}
BAFinal(s) == s.over
=============================================================================
