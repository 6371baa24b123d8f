------------------------------ MODULE SleepWake ------------------------------
(* A pool of workers of which all but the forking one are asleep.  A fork    *)
(* publishes its right branch and wakes a sleeper, which runs the branch     *)
(* although the forking thread does nothing but wait for it.                 *)
(* Events: 1 ASLEEP n  2 FORK r d 3 RIGHT r  4 LEFTGO r  5 JOIN r  6 LIVE n   *)
EXTENDS Integers, Sequences
SWInit(p) == { [ph |-> "idle", k |-> 0, p |-> p[1], rounds |-> p[2], over |-> FALSE, ft |-> 0, dep |-> 0, r |-> 0, g |-> 0] }
SWPost(s, e) ==
  CASE e[2] = 1 -> IF s.ph = "idle" THEN { s } ELSE {}
    [] e[2] = 2 -> IF s.ph = "idle" /\ e[3] = s.k THEN { [s EXCEPT !.ph = "forked", !.ft = e[1], !.dep = e[4], !.r = 0, !.g = 0] } ELSE {}
    [] e[2] = 3 -> IF s.ph = "forked" /\ e[3] = s.k /\ s.r = 0 /\ (s.dep = 1 => e[1] # s.ft) THEN { [s EXCEPT !.r = 1] } ELSE {}
    [] e[2] = 4 -> IF s.ph = "forked" /\ e[3] = s.k /\ s.g = 0 /\ e[1] = s.ft /\ (s.dep = 1 => s.r = 1) THEN { [s EXCEPT !.g = 1] } ELSE {}
    [] e[2] = 5 -> IF s.ph = "forked" /\ e[3] = s.k /\ s.r = 1 /\ s.g = 1 THEN { [s EXCEPT !.ph = "idle", !.k = @ + 1] } ELSE {}
    [] e[2] = 6 -> IF s.ph = "idle" /\ s.k = s.rounds /\ e[3] = 1 THEN { [s EXCEPT !.over = TRUE] } ELSE {}
    [] OTHER -> {}
SWFinal(s) == s.over
=============================================================================
