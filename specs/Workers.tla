------------------------------- MODULE Workers -------------------------------
(* Scheduler scopes and worker ids.  execute_with_scheduler(p, f) opens a    *)
(* scope with p worker slots; the caller takes slot 0 of the new scope, and  *)
(* its place in the enclosing scope is set aside until the scope is closed.  *)
(* Any other thread that runs a task of the scope holds one of the slots     *)
(* 1..p-1, the same one each time, and no slot is ever held by two threads.  *)
(* Worker-specific storage made in a scope has one element per slot.          *)
EXTENDS Integers, Sequences, FiniteSets
NoScope == [ph |-> "none", p |-> 0, slot |-> [w \in {} |-> 0], caller |-> -1]
WKInit(p) == { [ sc |-> [k \in 0..p[1]-1 |-> NoScope],
                 stack |-> [t \in 0..63 |-> <<>>],       \* scopes a thread is in, innermost last
                 ws |-> [w \in {} |-> 0], live |-> 0 ] }
Top(s, t) == IF s.stack[t] = <<>> THEN -1 ELSE s.stack[t][Len(s.stack[t])]
Pop(q) == SubSeq(q, 1, Len(q) - 1)
\* the slot thread t holds in scope k, if any
Holds(s, k, t) == { w \in DOMAIN s.sc[k].slot : s.sc[k].slot[w] = t }
Extend(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

Enter(s, t, k, p) == IF s.sc[k].ph = "none" /\ p >= 1
  THEN { [s EXCEPT !.sc[k] = [ph |-> "open", p |-> p, slot |-> Extend([w \in {} |-> 0], 0, t), caller |-> t]] } ELSE {}
In(s, t, k, wid, nw) == IF s.sc[k].ph = "open" /\ s.sc[k].caller = t /\ wid = 0 /\ nw = s.sc[k].p
  THEN { [s EXCEPT !.sc[k].ph = "run", !.stack[t] = Append(@, k)] } ELSE {}
Task(s, t, k, wid, nw) ==
  LET S == s.sc[k] IN
  IF /\ S.ph = "run" /\ nw = S.p /\ wid \in 0..S.p-1
     /\ IF Holds(s, k, t) # {} THEN Holds(s, k, t) = {wid} ELSE wid \notin DOMAIN S.slot /\ s.stack[t] = <<>>
     /\ Top(s, t) \in {k, -1}
  THEN { [s EXCEPT !.sc[k].slot = Extend(@, wid, t), !.stack[t] = IF @ = <<>> THEN <<k>> ELSE @] } ELSE {}
Leave(s, t, k) == IF s.sc[k].ph = "run" /\ s.sc[k].caller = t /\ Top(s, t) = k
  THEN { [s EXCEPT !.sc[k].ph = "left"] } ELSE {}
Exit(s, t, k, wid, nw) ==
  IF /\ s.sc[k].ph = "left" /\ s.sc[k].caller = t /\ Top(s, t) = k
     /\ LET o == Top([s EXCEPT !.stack[t] = Pop(@)], t) IN
          IF wid = -1 THEN o = -1
          ELSE o # -1 /\ nw = s.sc[o].p /\ Holds(s, o, t) = {wid}
  THEN { [s EXCEPT !.sc[k].ph = "closed", !.stack[t] = Pop(@)] } ELSE {}

\* a thread in no scope that uses the library opens a scope of its own, closed when the thread ends
Over(s, k) == IF s.sc[k].ph = "left" /\ s.stack[s.sc[k].caller] = <<k>>
  THEN { [s EXCEPT !.sc[k].ph = "closed", !.stack[s.sc[k].caller] = <<>>] } ELSE {}

\* worker-specific storage: per object the scope, the address seen per slot, the value per slot (0 at first)
WsNew(s, t, w, k) == IF w \notin DOMAIN s.ws
  THEN { [s EXCEPT !.ws = Extend(@, w, [k |-> k, adr |-> [i \in {} |-> 0], val |-> [i \in 0..s.sc[k].p-1 |-> 0], vis |-> {}])] } ELSE {}
Sees(s, w, i, a, v) == LET W == s.ws[w] IN
     /\ i \in DOMAIN W.val /\ v = W.val[i]
     /\ IF i \in DOMAIN W.adr THEN W.adr[i] = a ELSE \A j \in DOMAIN W.adr : W.adr[j] # a
Note(s, w, i, a) == [s EXCEPT !.ws[w].adr = Extend(@, i, a)]
WsGet(s, t, w, wid, i, a, v) == IF /\ i = wid /\ Sees(s, w, i, a, v) /\ Holds(s, s.ws[w].k, t) = {wid}
  THEN { Note(s, w, i, a) } ELSE {}
WsPut(s, t, w, wid, v) == IF Holds(s, s.ws[w].k, t) = {wid} THEN { [s EXCEPT !.ws[w].val[wid] = v] } ELSE {}
WsVis(s, w, pos, i, a, v) == IF /\ pos = i /\ i \notin s.ws[w].vis /\ Sees(s, w, i, a, v)
  THEN { [Note(s, w, i, a) EXCEPT !.ws[w].vis = @ \cup {i}] } ELSE {}
WsEnd(s, w, n) == IF n = s.sc[s.ws[w].k].p /\ s.ws[w].vis = 0..n-1 THEN { s } ELSE {}

WKPost(s, e) ==
  CASE e[2] = 1 -> Enter(s, e[1], e[3], e[4])
    [] e[2] = 2 -> In(s, e[1], e[3], e[4], e[5])
    [] e[2] = 3 -> Task(s, e[1], e[3], e[4], e[5])
    [] e[2] = 4 -> Leave(s, e[1], e[3])
    [] e[2] = 5 -> Exit(s, e[1], e[3], e[4], e[5])
    [] e[2] = 6 -> WsNew(s, e[1], e[3], e[4])
    [] e[2] = 7 -> WsGet(s, e[1], e[3], e[4], e[5], e[6], e[7])
    [] e[2] = 8 -> WsPut(s, e[1], e[3], e[4], e[5])
    [] e[2] = 9 -> WsVis(s, e[3], e[4], e[5], e[6], e[7])
    [] e[2] = 10 -> WsEnd(s, e[3], e[4])
    [] e[2] = 11 -> IF e[3] = 1 THEN { [s EXCEPT !.live = 1] } ELSE {}
    [] e[2] = 12 -> Over(s, e[3])
    [] OTHER -> {}
WKFinal(s) == s.live = 1 /\ \A k \in DOMAIN s.sc : s.sc[k].ph \in {"none", "closed"}
=============================================================================
