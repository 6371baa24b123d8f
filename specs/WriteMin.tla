------------------------------ MODULE WriteMin ------------------------------
(* A location with atomic write_min, write_max and write_add.                *)
(* Each call takes effect at one moment between call and return; the moment  *)
(* is found by the checker (see LifoStack).                                   *)
EXTENDS Integers, Sequences, FiniteSets
WMInit(p) == { [ord |-> p[1], pl |-> p[2], val |-> 0, pend |-> [t \in {} |-> <<0, 0, -1>>]] }
Key(s, v) == IF s.pl = 1 THEN v ELSE v \div 10
Less(s, x, y) == IF s.ord = 1 THEN Key(s, y) < Key(s, x) ELSE Key(s, x) < Key(s, y)
Eff(s, t) ==
  LET q == s.pend[t]
      Done(v, r) == [s EXCEPT !.val = v, !.pend[t][3] = r] IN
  CASE q[1] = 2 -> IF Less(s, q[2], s.val) THEN Done(q[2], 1) ELSE Done(s.val, 0)
    [] q[1] = 4 -> IF Less(s, s.val, q[2]) THEN Done(q[2], 1) ELSE Done(s.val, 0)
    [] q[1] = 6 -> Done(s.val + q[2], 0)
    [] q[1] = 8 -> Done(s.val, s.val)
RECURSIVE Clo(_)
Clo(A) == LET N == A \cup UNION { { Eff(s, t) : t \in { u \in DOMAIN s.pend : s.pend[u][3] = -1 } } : s \in A } IN IF N = A THEN A ELSE Clo(N)
WMPost(s, e) ==
  LET t == e[1] IN
  IF e[2] = 10 THEN { [s EXCEPT !.val = e[3]] }
  ELSE IF e[2] % 2 = 0
  THEN IF t \in DOMAIN s.pend THEN {}
       ELSE { [s EXCEPT !.pend = [u \in DOMAIN @ \cup {t} |-> IF u = t THEN <<e[2], e[3], -1>> ELSE @[u]]] }
  ELSE { [x EXCEPT !.pend = [u \in DOMAIN @ \ {t} |-> @[u]]] : x \in { y \in Clo({s}) : t \in DOMAIN y.pend /\ y.pend[t][1] = e[2] - 1 /\ y.pend[t][3] = e[3] } }
WMFinal(s) == DOMAIN s.pend = {}
=============================================================================
