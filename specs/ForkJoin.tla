------------------------------ MODULE ForkJoin ------------------------------
(* What a fork-join computation may do.  A task runs a body that may fork   *)
(* (one fork open at a time); a fork has a number of branch tasks; the fork *)
(* is joined only when every branch has finished, and the forking task then *)
(* sees every effect of every task below the fork.  A branch sees the       *)
(* effects its parent made before the fork.                                  *)
(*                                                                          *)
(* Events (tid, kind, a, b, c, d) recorded from the implementation:         *)
(*   1 FORK f t first n   2 START t f seen   3 END t   4 JOIN f t seen      *)
(*   5 DONE extra                                                            *)
EXTENDS Integers, Sequences, FiniteSets

FJState(nt, nf) ==
  [ st   |-> [t \in 0..nt-1 |-> "new"],      \* new, run, done
    cur  |-> [t \in 0..nt-1 |-> -1],         \* the fork the task has open
    sub  |-> [t \in 0..nt-1 |-> 0],          \* finished tasks strictly below t
    up   |-> [t \in 0..nt-1 |-> -2],         \* the fork that made the task
    fk   |-> [f \in 0..nf-1 |-> "none"],     \* none, open, joined
    kids |-> [f \in 0..nf-1 |-> {}],
    extra |-> 0,                              \* open forks around the whole computation
    over |-> FALSE ]

RECURSIVE SumSub(_, _)
SumSub(s, K) == IF K = {} THEN 0
                ELSE LET k == CHOOSE k \in K : TRUE
                     IN 1 + s.sub[k] + SumSub(s, K \ {k})

\* Each action yields the set of successor states (empty: not enabled)
Start(s, t, f, seen) ==
  IF /\ s.st[t] = "new" /\ ~s.over
     /\ IF f = -1 THEN t = 0 ELSE s.fk[f] = "open" /\ t \in s.kids[f]
     /\ seen = 1
  THEN { [s EXCEPT !.st[t] = "run", !.up[t] = f] } ELSE {}

Fork(s, f, t, first, n) ==
  IF /\ s.st[t] = "run" /\ s.cur[t] = -1 /\ s.fk[f] = "none"
     /\ \A g \in DOMAIN s.kids : s.kids[g] \cap (first..first+n-1) = {}
  THEN { [s EXCEPT !.cur[t] = f, !.fk[f] = "open", !.kids[f] = first..first+n-1] } ELSE {}

End(s, t) ==
  IF s.st[t] = "run" /\ s.cur[t] = -1
  THEN { [s EXCEPT !.st[t] = "done"] } ELSE {}

Join(s, f, t, seen) ==
  IF /\ s.st[t] = "run" /\ s.cur[t] = f /\ s.fk[f] = "open"
     /\ \A k \in s.kids[f] : s.st[k] = "done"
     /\ seen = SumSub(s, s.kids[f])
  THEN { [s EXCEPT !.cur[t] = -1, !.fk[f] = "joined", !.sub[t] = @ + SumSub(s, s.kids[f])] } ELSE {}

Done(s, extra) == IF s.st[0] = "done" /\ ~s.over /\ extra = s.extra THEN { [s EXCEPT !.over = TRUE] } ELSE {}

------------------------------------------------------------------------------
(* binding of recorded events to actions *)
FJInit(p) == { [FJState(p[2], p[3]) EXCEPT !.extra = p[4]] }
FJPost(s, e) ==
  CASE e[2] = 1 -> Fork(s, e[3], e[4], e[5], e[6])
    [] e[2] = 2 -> Start(s, e[3], e[4], e[5])
    [] e[2] = 3 -> End(s, e[3])
    [] e[2] = 4 -> Join(s, e[3], e[4], e[5])
    [] e[2] = 5 -> Done(s, e[3])
    [] OTHER -> {}
FJFinal(s) == /\ s.over
              /\ \A t \in DOMAIN s.st : s.st[t] = "done"
              /\ \A f \in DOMAIN s.fk : s.fk[f] = "joined"
=============================================================================
