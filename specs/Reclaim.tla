------------------------------- MODULE Reclaim -------------------------------
(* Safe memory reclamation (acquire / release / retire).                     *)
(* State: what each source holds or may hold while exchanges are in flight,  *)
(* who protects what, what has been retired and destroyed.                   *)
(*  - acquire returns a value the source may have held during the call, and  *)
(*    from then on the object is protected by that thread                    *)
(*  - no object is destroyed twice, before it is retired, or while a thread  *)
(*    that protects it acquired it before it was retired                     *)
(*  - when the scheme is gone everything retired has been destroyed          *)
(* Events: see harness/c08_reclaim.cpp                                        *)
EXTENDS Integers, Sequences, FiniteSets
\* hold[s]: the set of values the source may hold now (linearisation open)
\* seen[t]: what the source t is acquiring from may have held since the call
RCInit(p) == { [hold |-> [s \in {0, 1} |-> {0}], cur |-> [s \in {0, 1} |-> 0], sw |-> [t \in {} |-> <<0, 0>>], acq |-> [t \in {} |-> <<0, {}>>],
                prot |-> [t \in {} |-> 0], rel |-> {}, ret |-> {}, dst |-> {}, dead |-> FALSE, gone |-> FALSE] }
Put(f, t, v) == [u \in DOMAIN f \cup {t} |-> IF u = t THEN v ELSE f[u]]
Del(f, t) == [u \in DOMAIN f \ {t} |-> f[u]]
\* values the source may hold at some moment from now until something else is recorded
Vals(s, x) == {s.cur[x]} \cup { s.sw[t][2] : t \in { u \in DOMAIN s.sw : s.sw[u][1] = x } }
See(s) == [s EXCEPT !.acq = [t \in DOMAIN @ |-> <<@[t][1], @[t][2] \cup Vals(s, @[t][1])>>]]
\* the order of exchanges on one source is told by the values they return
\* (every object is put into a source once): exchange t took effect on top of
\* `old`.  cur is the value after all exchanges known to have taken effect; an
\* exchange that returns a value that another pending one is still to put is
\* explained by letting that one take effect first.
RECURSIVE Apply(_, _, _)
Apply(s, x, old) ==   \* states in which source x holds old, reached by letting pending exchanges take effect
  (IF s.cur[x] = old THEN {s} ELSE {}) \cup
  UNION { Apply([s EXCEPT !.cur[x] = s.sw[t][2], !.sw = [@ EXCEPT ![t] = <<-1, s.cur[x], x>>]], x, old)
               : t \in { u \in DOMAIN s.sw : s.sw[u][1] = x } }
RCPost(s, e) ==
  LET t == e[1]  k == e[2]  a == e[3]  b == e[4] IN
  CASE k = 2 -> LET n == [s EXCEPT !.acq = Put(@, t, <<a, {}>>), !.prot = Put(@, t, 0)] IN { See(n) }
    [] k = 3 -> IF t \in DOMAIN s.acq /\ b \in s.acq[t][2] /\ b \notin s.dst
                THEN { [s EXCEPT !.acq = Del(@, t), !.prot = Put(@, t, b)] } ELSE {}
    [] k = 4 -> { [s EXCEPT !.prot = Put(@, t, 0)] }
    [] k = 5 -> { s }
    [] k = 6 -> { See([s EXCEPT !.sw = Put(@, t, <<a, b>>)]) }
    [] k = 7 -> LET done(z) == [z EXCEPT !.sw = Del(@, t)] IN
                IF t \notin DOMAIN s.sw THEN {}
                ELSE IF s.sw[t][1] = -1 THEN IF s.sw[t][2] = b THEN { See(done(s)) } ELSE {}
                ELSE { See(done([z EXCEPT !.cur[a] = s.sw[t][2]])) : z \in { y \in Apply([s EXCEPT !.sw = Del(@, t)], a, b) : TRUE } }
    [] k = 8 -> IF a \in s.ret THEN {} ELSE { [s EXCEPT !.ret = @ \cup {a}] }
    [] k = 9 -> { s }
    [] k = 10 -> IF a \in s.ret /\ a \notin s.dst /\ ~s.gone /\ ~\E u \in DOMAIN s.prot : s.prot[u] = a
                 THEN { [s EXCEPT !.dst = @ \cup {a}] } ELSE {}
    [] k = 12 -> IF a \notin s.dst THEN { s } ELSE {}
    [] k = 14 -> { [s EXCEPT !.dead = TRUE] }
    [] k = 15 -> IF s.dst = s.ret THEN { [s EXCEPT !.gone = TRUE] } ELSE {}
    [] k = 16 -> IF s.gone /\ s.ret = 1..(a - 1) THEN { s } ELSE {}
    [] OTHER -> {}
RCFinal(s) == s.gone
=============================================================================
