------------------------------- MODULE Malloc -------------------------------
(* A general memory allocator.                                               *)
(* State: the non-empty blocks that are out: start and length (units of 8 bytes) and   *)
(* size (units of 16, rounded down).  Empty blocks overlap nothing; z counts  *)
(* them.                                                                     *)
EXTENDS Integers, Sequences, FiniteSets
MAInit(p) == { [out |-> {}, z |-> 0, over |-> FALSE] }
Overlap(s, a, n) == \E x \in s.out : a < x[1] + x[2] /\ x[1] < a + n
RECURSIVE Sum(_)
Sum(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN x[3] + Sum(S \ {x})
MAPost(s, e) ==
  LET k == e[2]  a == e[3]  b == e[4]  c == e[5]  d == e[6] IN
  CASE k = 2 -> IF d = 1 /\ (b > 0 => ~Overlap(s, a, b)) THEN { IF b = 0 THEN [s EXCEPT !.z = @ + 1] ELSE [s EXCEPT !.out = @ \cup {<<a, b, c>>}] } ELSE {}
    [] k = 4 -> IF c = 0 THEN (IF b = 1 /\ s.z > 0 THEN { [s EXCEPT !.z = @ - 1] } ELSE {}) ELSE IF b = 1 /\ \E x \in s.out : x[1] = a /\ x[2] = c THEN { [s EXCEPT !.out = { x \in @ : x[1] # a }] } ELSE {}
    \* memory reported in use covers what is out, and nothing is in use when nothing is out
    [] k = 6 -> IF c = 1 /\ b >= 0 /\ a >= Sum(s.out) /\ (s.out = {} /\ s.z = 0 => a = 0) THEN { s } ELSE {}
    [] k = 8 -> IF a = b THEN { s } ELSE {}
    \* what the report says was released was released
    [] k = 10 -> IF a >= 0 /\ b >= a /\ (c = 0 \/ s.out # {} \/ s.z > 0) THEN { s } ELSE {}
    [] k = 12 -> IF s.out = {} /\ s.z = 0 THEN { [s EXCEPT !.over = TRUE] } ELSE {}
    [] OTHER -> {}
MAFinal(s) == s.over
=============================================================================
