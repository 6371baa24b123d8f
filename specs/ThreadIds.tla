------------------------------ MODULE ThreadIds ------------------------------
(* Thread ids are taken from a pool of free ids, or freshly made when the    *)
(* pool is empty, and given back when the thread is gone.  What an observer  *)
(* can rely on:                                                               *)
(*   - a thread keeps its id, and no other thread holds the same one         *)
(*     between the moment it was obtained and the end of the thread's code;  *)
(*   - ids are smaller than the reported number of ids;                      *)
(*   - the number of ids never exceeds the largest number of threads that    *)
(*     held, or were obtaining or giving back, an id at one moment.          *)
(* Events: 1 CALL  2 GOT id  3 NUM n  4 END  5 JOIN t  7 OVER  8 NUMCALL                *)
EXTENDS Integers, Sequences, FiniteSets
TIInit(p) == { [ id |-> [t \in 0..31 |-> -1],   \* certain holders
                 has |-> {},                   \* threads that have had an id (may hold one)
                 calling |-> {}, maxp |-> 0, seen |-> -1, nmax |-> 0, nc |-> [t \in 0..31 |-> 0], over |-> FALSE ] }
Poss(s) == Cardinality(s.has \cup s.calling)
Bump(s) == [s EXCEPT !.maxp = IF Poss(s) > @ THEN Poss(s) ELSE @]
Max(a, b) == IF a > b THEN a ELSE b
Call(s, t) == IF t \notin s.calling THEN { Bump([s EXCEPT !.calling = @ \cup {t}]) } ELSE {}
Got(s, t, i) ==
  IF /\ t \in s.calling
     /\ i >= 0 /\ i < s.maxp
     /\ IF s.id[t] # -1 THEN s.id[t] = i ELSE t \notin s.has /\ \A u \in DOMAIN s.id : s.id[u] # i
  THEN { [s EXCEPT !.id[t] = i, !.has = @ \cup {t}, !.calling = @ \ {t}, !.seen = Max(@, i)] } ELSE {}
NumCall(s, t) == { [s EXCEPT !.nc[t] = Max(s.nmax, s.seen + 1)] }
Num(s, t, n) == IF n >= s.nc[t] /\ n <= s.maxp THEN { [s EXCEPT !.nmax = Max(@, n)] } ELSE {}
End(s, t) == IF t \notin s.calling THEN { [s EXCEPT !.id[t] = -1] } ELSE {}
Join(s, u) == IF s.id[u] = -1 /\ u \notin s.calling THEN { [s EXCEPT !.has = @ \ {u}] } ELSE {}
TIPost(s, e) ==
  CASE e[2] = 1 -> Call(s, e[1])
    [] e[2] = 2 -> Got(s, e[1], e[3])
    [] e[2] = 3 -> Num(s, e[1], e[3])
    [] e[2] = 8 -> NumCall(s, e[1])
    [] e[2] = 4 -> End(s, e[1])
    [] e[2] = 5 -> Join(s, e[3])
    [] e[2] = 7 -> { [s EXCEPT !.over = TRUE] }
    [] OTHER -> {}
TIFinal(s) == s.over
=============================================================================
