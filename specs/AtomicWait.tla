----------------------------- MODULE AtomicWait -----------------------------
(* Waiting on atomic values: a wait for "not v" returns only after the value *)
(* differed from v at some moment of the call (values here only grow), and   *)
(* every waiter whose value changed before a notification is woken; that a   *)
(* wait never returns shows as an abnormal end of the recorded execution.    *)
(* Events: 1 SETCALL l v  2 SETRET l v  3 NCALL l all  4 NRET  5 WCALL l v    *)
(*         6 WRET l v  7 READ l v  8 END                                      *)
EXTENDS Integers, Sequences, FiniteSets
\* lo[l]: value certainly set; hi[l]: value possibly set already
AWInit(p) == { [ lo |-> [l \in 0..p[1]-1 |-> 0], hi |-> [l \in 0..p[1]-1 |-> 0],
                 top |-> [l \in 0..p[1]-1 |-> p[l + 2]],
                 w |-> [t \in 0..15 |-> <<-1, -1>>], over |-> FALSE ] }
AWPost(s, e) ==
  LET t == e[1]  l == e[3]  v == e[4] IN
  CASE e[2] = 1 -> IF v = s.lo[l] + 1 /\ s.hi[l] = s.lo[l] THEN { [s EXCEPT !.hi[l] = v] } ELSE {}
    [] e[2] = 2 -> IF s.hi[l] = v THEN { [s EXCEPT !.lo[l] = v] } ELSE {}
    [] e[2] \in {3, 4} -> { s }
    [] e[2] = 5 -> IF s.w[t] = <<-1, -1>> THEN { [s EXCEPT !.w[t] = <<l, v>>] } ELSE {}
    [] e[2] = 6 -> IF s.w[t] = <<l, v>> /\ s.hi[l] # v THEN { [s EXCEPT !.w[t] = <<-2, v>>] } ELSE {}
    [] e[2] = 7 -> IF s.w[t][1] = -2 /\ v # s.w[t][2] /\ v <= s.hi[l] THEN { [s EXCEPT !.w[t] = <<-1, -1>>] } ELSE {}
    [] e[2] = 8 -> IF \A i \in DOMAIN s.lo : s.lo[i] = s.top[i] THEN { [s EXCEPT !.over = TRUE] } ELSE {}
    [] OTHER -> {}
AWFinal(s) == s.over /\ \A t \in DOMAIN s.w : s.w[t] = <<-1, -1>>
=============================================================================
