------------------------------ MODULE WorkDeque ------------------------------
(* A work-stealing deque of jobs.  The owner pushes and pops at the bottom,  *)
(* thieves take from the top.  An operation takes effect at one moment       *)
(* between its call and its return.  The owner's pop comes back empty-handed *)
(* only when the deque is empty; a thief may come back empty-handed whenever *)
(* others are at work (it may not have heard of a push yet, or lose a race), *)
(* but not when it is alone (q = 1).  No job is ever handed out twice.       *)
(* Events: 2 PUSH j/3 first  4 POP/5 j  6 STEAL q/7 j  8 OVER  (j = 0: nothing) *)
EXTENDS Integers, Sequences, FiniteSets
WDInit(p) == { [q |-> <<>>, pend |-> [t \in {} |-> <<>>], cnt |-> 0] }
\* pend[t] = <<operation, argument, result (-1: not yet)>>
Op(s, t) == s.pend[t][1]
Last(q) == q[Len(q)]
Front(q) == SubSeq(q, 1, Len(q) - 1)
WDEff(s, t) ==
  CASE Op(s, t) = 2 -> { [s EXCEPT !.q = Append(@, s.pend[t][2]), !.pend[t][3] = 0] }
    [] Op(s, t) = 4 -> IF s.q = <<>> THEN { [s EXCEPT !.pend[t][3] = 0] }
                       ELSE { [s EXCEPT !.q = Front(@), !.pend[t][3] = Last(s.q)] }
    [] Op(s, t) = 6 -> (IF s.q # <<>> THEN { [s EXCEPT !.q = Tail(@), !.pend[t][3] = Head(s.q)] } ELSE {})
                       \cup (IF s.q = <<>> \/ s.pend[t][2] = 0 THEN { [s EXCEPT !.pend[t][3] = 0] } ELSE {})
    [] OTHER -> {}
Waiting(s) == { t \in DOMAIN s.pend : s.pend[t][3] = -1 }
WDCall(s, t, op, a) == [s EXCEPT !.pend = [u \in DOMAIN @ \cup {t} |-> IF u = t THEN <<op, a, -1>> ELSE @[u]]]
WDRet(s, t) == [s EXCEPT !.pend = [u \in DOMAIN @ \ {t} |-> @[u]]]
RECURSIVE WDClo(_)
WDClo(A) == LET N == A \cup UNION { UNION { WDEff(s, t) : t \in Waiting(s) } : s \in A } IN IF N = A THEN A ELSE WDClo(N)
WDPost(s, e) ==
  LET t == e[1] IN
  IF e[2] = 8 THEN IF DOMAIN s.pend = {} /\ s.q = <<>> THEN { s } ELSE {}
  ELSE IF e[2] % 2 = 0
  THEN IF t \in DOMAIN s.pend THEN {} ELSE { WDCall(s, t, e[2], e[3]) }
  ELSE { WDRet(x, t) : x \in { y \in WDClo({s}) : t \in DOMAIN y.pend /\ Op(y, t) = e[2] - 1 /\ y.pend[t][3] = IF e[2] = 3 THEN 0 ELSE e[3] } }
WDFinal(s) == DOMAIN s.pend = {} /\ s.q = <<>>
=============================================================================
