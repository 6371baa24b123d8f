-------------------------------- MODULE MCCond --------------------------------
(* atomic_wait / atomic_notify on the condition-variable back end: locations   *)
(* share one table entry (credit, mutex, condition variable).  A waiter sets    *)
(* the credit and looks at its location again before it waits; a notifier that   *)
(* takes the credit passes through the mutex, then wakes everybody.             *)
EXTENDS Integers, FiniteSets
CONSTANTS Waiters, Locs, LocOf, Flaw   \* Flaw: 0 none, 1 no pass through the mutex, 2 look before setting the credit
VARIABLES val, credit, mutex, w, s, woken
vars == <<val, credit, mutex, w, s, woken>>
LocOfDef == [x \in Waiters |-> IF x = 3 THEN 2 ELSE 1]
Init == /\ val = [l \in Locs |-> 0] /\ credit = 0 /\ mutex = 0 /\ woken = {}
        /\ w = [x \in Waiters |-> "test"] /\ s = [l \in Locs |-> "set"]
To(x, pc) == w' = [w EXCEPT ![x] = pc]
\* ---- a waiter
Test(x) == w[x] = "test" /\ To(x, IF val[LocOf[x]] # 0 THEN "out" ELSE "lock") /\ UNCHANGED <<val, credit, mutex, s, woken>>
Lock(x) == w[x] = "lock" /\ mutex = 0 /\ mutex' = x /\ To(x, IF Flaw = 2 THEN "look" ELSE "cred") /\ UNCHANGED <<val, credit, s, woken>>
Cred(x) == w[x] = "cred" /\ credit' = 1 /\ To(x, IF Flaw = 2 THEN "wait" ELSE "look") /\ UNCHANGED <<val, mutex, s, woken>>
LookW(x) == w[x] = "look" /\ To(x, IF val[LocOf[x]] # 0 THEN "unlock" ELSE IF Flaw = 2 THEN "cred" ELSE "wait") /\ UNCHANGED <<val, credit, mutex, s, woken>>
Wait(x) == w[x] = "wait" /\ mutex' = 0 /\ To(x, "asleep") /\ UNCHANGED <<val, credit, s, woken>>
Spurious(x) == w[x] = "asleep" /\ woken = {} /\ woken' = {x} /\ To(x, "relock") /\ UNCHANGED <<val, credit, mutex, s>>
Relock(x) == w[x] = "relock" /\ mutex = 0 /\ mutex' = x /\ To(x, "unlock") /\ UNCHANGED <<val, credit, s, woken>>
Unlock(x) == w[x] = "unlock" /\ mutex' = 0 /\ To(x, "test") /\ UNCHANGED <<val, credit, s, woken>>
\* ---- a setter, one per location (100 + l holds the mutex)
Sto(l, pc) == s' = [s EXCEPT ![l] = pc]
SetVal(l) == s[l] = "set" /\ val' = [val EXCEPT ![l] = 1] /\ Sto(l, "see") /\ UNCHANGED <<credit, mutex, w, woken>>
See(l) == s[l] = "see" /\ Sto(l, IF credit = 0 THEN "over" ELSE "take") /\ UNCHANGED <<val, credit, mutex, w, woken>>
Take(l) == s[l] = "take" /\ credit' = 0 /\ Sto(l, IF credit = 0 THEN "over" ELSE IF Flaw = 1 THEN "wake" ELSE "pass") /\ UNCHANGED <<val, mutex, w, woken>>
Pass(l) == s[l] = "pass" /\ mutex = 0 /\ mutex' = 100 + l /\ Sto(l, "leave") /\ UNCHANGED <<val, credit, w, woken>>
Leave(l) == s[l] = "leave" /\ mutex' = 0 /\ Sto(l, "wake") /\ UNCHANGED <<val, credit, w, woken>>
WakeUp(l) == /\ s[l] = "wake" /\ Sto(l, "over") /\ UNCHANGED <<val, credit, mutex, woken>>
             /\ w' = [x \in Waiters |-> IF w[x] = "asleep" THEN "relock" ELSE w[x]]
Waiter(x) == Test(x) \/ Lock(x) \/ Cred(x) \/ LookW(x) \/ Wait(x) \/ Relock(x) \/ Unlock(x)
Setter(l) == SetVal(l) \/ See(l) \/ Take(l) \/ Pass(l) \/ Leave(l) \/ WakeUp(l)
Next == (\E x \in Waiters : Waiter(x) \/ Spurious(x)) \/ \E l \in Locs : Setter(l)
\* the mutex is fair enough: whoever wants it gets it at last
Spec == /\ Init /\ [][Next]_vars /\ (\A x \in Waiters : WF_vars(Waiter(x)) /\ SF_vars(Lock(x)) /\ SF_vars(Relock(x)))
        /\ \A l \in Locs : WF_vars(Setter(l)) /\ SF_vars(Pass(l))
------------------------------------------------------------------------------
AllWake == <>[](\A x \in Waiters : w[x] = "out")
NotEarly == \A x \in Waiters : w[x] = "out" => val[LocOf[x]] # 0
MutexHeld == mutex # 0 <=> \/ \E x \in Waiters : w[x] \in {"cred", "look", "wait", "unlock"}
                           \/ \E l \in Locs : s[l] = "leave"
=============================================================================
