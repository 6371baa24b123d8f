------------------------------ MODULE LifoStack ------------------------------
(* A linearizable LIFO stack.  Operations take effect at one moment between  *)
(* their call and their return (clear: a run of pops, the last of which      *)
(* finds the stack empty).  The moment is not recorded: it is found by the   *)
(* checker, which lets pending operations take effect whenever a return has  *)
(* to be explained.                                                           *)
(* Events: 2 PUSH v/3  4 POP/5 v  6 EMPTY/7 b  8 SIZE/9 n  10 CLEAR/11  12 OVER *)
EXTENDS Integers, Sequences, FiniteSets
Idle == [op |-> 0, arg |-> 0, res |-> -1]
LSInit(p) == { [stk |-> <<>>, pend |-> [t \in {} |-> Idle]] }
Eff(s, t) ==
  LET q == s.pend[t]
      Done(r) == [s EXCEPT !.pend[t].res = r] IN
  CASE q.op = 2 -> { [Done(0) EXCEPT !.stk = <<q.arg>> \o @] }
    [] q.op = 4 -> IF s.stk = <<>> THEN { Done(0) } ELSE { [Done(Head(s.stk)) EXCEPT !.stk = Tail(@)] }
    [] q.op = 6 -> { Done(IF s.stk = <<>> THEN 1 ELSE 0) }
    [] q.op = 8 -> { Done(Len(s.stk)) }
    [] q.op = 10 -> IF s.stk = <<>> THEN { Done(0) } ELSE { [s EXCEPT !.stk = Tail(@)] }
Active(s) == { t \in DOMAIN s.pend : s.pend[t].res = -1 }
RECURSIVE Clo(_)
Clo(A) == LET N == A \cup UNION { UNION { Eff(s, t) : t \in Active(s) } : s \in A } IN IF N = A THEN A ELSE Clo(N)
Drop(s, t) == [s EXCEPT !.pend = [u \in DOMAIN @ \ {t} |-> @[u]]]
LSPost(s, e) ==
  LET t == e[1] IN
  IF e[2] = 12 THEN IF DOMAIN s.pend = {} THEN { s } ELSE {}
  ELSE IF e[2] % 2 = 0
  THEN IF t \in DOMAIN s.pend THEN {}
       ELSE { [s EXCEPT !.pend = [u \in DOMAIN @ \cup {t} |-> IF u = t THEN [op |-> e[2], arg |-> e[3], res |-> -1] ELSE @[u]]] }
  ELSE { Drop(x, t) : x \in { y \in Clo({s}) : t \in DOMAIN y.pend /\ y.pend[t].op = e[2] - 1 /\ y.pend[t].res = e[3] } }
LSFinal(s) == DOMAIN s.pend = {}
=============================================================================
