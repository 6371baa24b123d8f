-------------------------------- MODULE MCWait --------------------------------
(* atomic_wait / atomic_notify with the shared contention table over futexes, *)
(* one step per atomic operation.  Locations share one table entry (waiters,  *)
(* version).  Direct: the futex is the location itself; otherwise it is the    *)
(* version word, which a waiter reads before it looks at the location again.   *)
(* A setter changes its location and then notifies; a waiter waits for its     *)
(* location to differ from 0.                                                  *)
EXTENDS Integers, FiniteSets
CONSTANTS Waiters, Locs, LocOf, Direct, Early   \* Early: read the version only after the location (the old, wrong order)
VARIABLES val, waiters, version, w, wv, s, woken
vars == <<val, waiters, version, w, wv, s, woken>>
LocOfDef == [x \in Waiters |-> IF x = 3 THEN 2 ELSE 1]
Init == /\ val = [l \in Locs |-> 0] /\ waiters = 0 /\ version = 0
        /\ w = [x \in Waiters |-> "test"] /\ wv = [x \in Waiters |-> 0] /\ s = [l \in Locs |-> "set"] /\ woken = {}
To(x, pc) == w' = [w EXCEPT ![x] = pc]
\* ---- a waiter
Test(x) == w[x] = "test" /\ To(x, IF val[LocOf[x]] # 0 THEN "out" ELSE "inc") /\ UNCHANGED <<val, waiters, version, wv, s, woken>>
Inc(x) == w[x] = "inc" /\ waiters' = waiters + 1 /\ To(x, IF Direct THEN "futex" ELSE IF Early THEN "again" ELSE "ver") /\ UNCHANGED <<val, version, wv, s, woken>>
Ver(x) == w[x] = "ver" /\ wv' = [wv EXCEPT ![x] = version] /\ To(x, IF Early THEN "futex" ELSE "again") /\ UNCHANGED <<val, waiters, version, s, woken>>
Again(x) == w[x] = "again" /\ To(x, IF val[LocOf[x]] # 0 THEN "dec" ELSE IF Early THEN "ver" ELSE "futex") /\ UNCHANGED <<val, waiters, version, wv, s, woken>>
Futex(x) == /\ w[x] = "futex" /\ UNCHANGED <<val, waiters, version, wv, s, woken>>
            /\ To(x, IF (IF Direct THEN val[LocOf[x]] = 0 ELSE version = wv[x]) THEN "asleep" ELSE "dec")
Spurious(x) == w[x] = "asleep" /\ woken = {} /\ woken' = {x} /\ To(x, "dec") /\ UNCHANGED <<val, waiters, version, wv, s>>
Dec(x) == w[x] = "dec" /\ waiters' = waiters - 1 /\ To(x, "test") /\ UNCHANGED <<val, version, wv, s, woken>>
\* ---- a setter, one per location
Sto(l, pc) == s' = [s EXCEPT ![l] = pc]
SetVal(l) == s[l] = "set" /\ val' = [val EXCEPT ![l] = 1] /\ Sto(l, IF Direct THEN "look" ELSE "bump") /\ UNCHANGED <<waiters, version, w, wv, woken>>
Bump(l) == s[l] = "bump" /\ version' = version + 1 /\ Sto(l, "look") /\ UNCHANGED <<val, waiters, w, wv, woken>>
Look(l) == s[l] = "look" /\ Sto(l, IF waiters = 0 THEN "over" ELSE "wake") /\ UNCHANGED <<val, waiters, version, w, wv, woken>>
WakeUp(l) == /\ s[l] = "wake" /\ Sto(l, "over") /\ UNCHANGED <<val, waiters, version, wv, woken>>
             /\ w' = [x \in Waiters |-> IF w[x] = "asleep" /\ (Direct => LocOf[x] = l) THEN "dec" ELSE w[x]]
Waiter(x) == Test(x) \/ Inc(x) \/ Ver(x) \/ Again(x) \/ Futex(x) \/ Dec(x)
Setter(l) == SetVal(l) \/ Bump(l) \/ Look(l) \/ WakeUp(l)
Next == (\E x \in Waiters : Waiter(x) \/ Spurious(x)) \/ \E l \in Locs : Setter(l)
Spec == Init /\ [][Next]_vars /\ (\A x \in Waiters : WF_vars(Waiter(x))) /\ \A l \in Locs : WF_vars(Setter(l))
------------------------------------------------------------------------------
AllWake == <>[](\A x \in Waiters : w[x] = "out")
NotEarly == \A x \in Waiters : w[x] = "out" => val[LocOf[x]] # 0
CountOfWaiters == waiters = Cardinality({ x \in Waiters : w[x] \in {"ver", "again", "futex", "asleep", "dec"} })
=============================================================================
