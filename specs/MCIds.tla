-------------------------------- MODULE MCIds --------------------------------
(* The pool of thread ids: a free list that is pushed without and popped     *)
(* under a lock, and a counter for fresh ids.  Threads take an id, hold it   *)
(* and give it back, Rounds times.  One step per atomic operation.           *)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS Threads, Rounds, Locked   \* Locked: pops exclude each other
VARIABLES top, next, num, lock, th, most
vars == <<top, next, num, lock, th, most>>
Nil == -1
Ids == 0..(Cardinality(Threads) * Rounds)
Init == /\ top = Nil /\ next = [i \in Ids |-> Nil] /\ num = 0 /\ lock = {} /\ most = 0
        /\ th = [t \in Threads |-> [pc |-> "out", id |-> Nil, cur |-> Nil, nx |-> Nil, k |-> Rounds]]
Go(t, r) == th' = [th EXCEPT ![t] = r]
\* threads that hold an id or are obtaining or giving one back
Busy(s) == Cardinality({ t \in Threads : s[t].pc # "out" })
Begin(t) == /\ th[t].pc = "out" /\ th[t].k > 0 /\ Go(t, [th[t] EXCEPT !.pc = "look", !.k = @ - 1])
            /\ most' = (IF Busy(th') > most THEN Busy(th') ELSE most) /\ UNCHANGED <<top, next, num, lock>>
Look(t) == th[t].pc = "look" /\ Go(t, [th[t] EXCEPT !.pc = IF top = Nil THEN "new" ELSE "lock"]) /\ UNCHANGED <<top, next, num, lock, most>>
Lock(t) == th[t].pc = "lock" /\ (Locked => lock = {}) /\ lock' = lock \cup {t} /\ Go(t, [th[t] EXCEPT !.pc = "cur"]) /\ UNCHANGED <<top, next, num, most>>
Cur(t) == /\ th[t].pc = "cur" /\ Go(t, [th[t] EXCEPT !.cur = top, !.pc = IF top = Nil THEN "fail" ELSE "nx"]) /\ UNCHANGED <<top, next, num, lock, most>>
Nx(t) == th[t].pc = "nx" /\ Go(t, [th[t] EXCEPT !.nx = next[th[t].cur], !.pc = "cas"]) /\ UNCHANGED <<top, next, num, lock, most>>
Cas(t) == /\ th[t].pc = "cas"
          /\ IF top = th[t].cur THEN top' = th[t].nx /\ lock' = lock \ {t} /\ Go(t, [th[t] EXCEPT !.pc = "hold", !.id = th[t].cur])
             ELSE Go(t, [th[t] EXCEPT !.pc = "cur"]) /\ UNCHANGED <<top, lock>>
          /\ UNCHANGED <<next, num, most>>
Fail(t) == th[t].pc = "fail" /\ lock' = lock \ {t} /\ Go(t, [th[t] EXCEPT !.pc = "new"]) /\ UNCHANGED <<top, next, num, most>>
New(t) == th[t].pc = "new" /\ num' = num + 1 /\ Go(t, [th[t] EXCEPT !.pc = "hold", !.id = num]) /\ UNCHANGED <<top, next, lock, most>>
GiveNext(t) == th[t].pc \in {"hold", "retry"} /\ next' = [next EXCEPT ![th[t].id] = top] /\ Go(t, [th[t] EXCEPT !.pc = "give", !.cur = top]) /\ UNCHANGED <<top, num, lock, most>>
Give(t) == /\ th[t].pc = "give"
           /\ IF top = th[t].cur THEN top' = th[t].id /\ Go(t, [th[t] EXCEPT !.pc = "out", !.id = Nil]) ELSE Go(t, [th[t] EXCEPT !.pc = "retry"]) /\ UNCHANGED top
           /\ UNCHANGED <<next, num, lock, most>>
Next == \E t \in Threads : Begin(t) \/ Look(t) \/ Lock(t) \/ Cur(t) \/ Nx(t) \/ Cas(t) \/ Fail(t) \/ New(t) \/ GiveNext(t) \/ Give(t)
Spec == Init /\ [][Next]_vars
Sym == Permutations(Threads)
------------------------------------------------------------------------------
RECURSIVE Free(_, _)
Free(x, k) == IF x = Nil \/ k = 0 THEN {} ELSE {x} \cup Free(next[x], k - 1)
FreeIds == Free(top, Cardinality(Ids))
Unique == \A t, u \in Threads : t # u /\ th[t].id # Nil => th[t].id # th[u].id
NotFree == \A t \in Threads : th[t].id # Nil => th[t].id \notin FreeIds
Dense == num <= most /\ \A t \in Threads : th[t].id < num
NoneLost == (\A t \in Threads : th[t].pc = "out") => FreeIds = 0..(num - 1)
=============================================================================
