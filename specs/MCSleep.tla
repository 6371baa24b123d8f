------------------------------- MODULE MCSleep -------------------------------
(* The scheduler's sleep / wake-up / shutdown protocol, one step per atomic  *)
(* operation.  The main thread forks Forks jobs one after another, each one  *)
(* onto an empty deque; it is done with a job when the job has run (by a     *)
(* worker, or by itself if Own), then shuts the scheduler down.  Waiting on  *)
(* the wake-up counter is the atomic step AtomicWait promises: a waiter      *)
(* falls asleep only while the counter still has the value it read, and a    *)
(* notification wakes one (or more) of those asleep.                         *)
EXTENDS Integers, FiniteSets
CONSTANTS Workers, Forks, Own, SpamShutdown
VARIABLES m, w, jobs, awake, same, fin, nfin, left, shut
\* same: the workers that have read the counter's present value
vars == <<m, w, jobs, awake, same, fin, nfin, left, shut>>
N == Cardinality(Workers) + 1
\* everybody asleep at first, as after a long idle time
Init == /\ m = "idle" /\ w = [x \in Workers |-> "asleep"] /\ jobs = 0 /\ awake = 1 /\ same = Workers
        /\ fin = FALSE /\ nfin = 0 /\ left = Forks /\ shut = FALSE
Sleepers == { x \in Workers : w[x] = "asleep" }
\* ---- main
Fork == m = "idle" /\ left > 0 /\ jobs' = 1 /\ left' = left - 1 /\ m' = "wake" /\ UNCHANGED <<w, awake, same, fin, nfin, shut>>
WakeTest == m = "wake" /\ m' = (IF awake < N THEN "bump" ELSE "wait") /\ UNCHANGED <<w, jobs, awake, same, fin, nfin, left, shut>>
WakeBump == m = "bump" /\ same' = {} /\ m' = "notify" /\ UNCHANGED <<w, jobs, awake, fin, nfin, left, shut>>
Notify == /\ m = "notify" /\ m' = "wait"
          /\ IF Sleepers = {} THEN w' = w ELSE \E S \in SUBSET Sleepers : S # {} /\ w' = [x \in Workers |-> IF x \in S THEN "woken" ELSE w[x]]
          /\ UNCHANGED <<jobs, awake, same, fin, nfin, left, shut>>
RunOwn == Own /\ m = "wait" /\ jobs = 1 /\ jobs' = 0 /\ m' = "idle" /\ UNCHANGED <<w, awake, same, fin, nfin, left, shut>>
Joined == m = "wait" /\ jobs = 0 /\ (\A x \in Workers : w[x] # "run") /\ m' = "idle" /\ UNCHANGED <<w, jobs, awake, same, fin, nfin, left, shut>>
ShutBegin == m = "idle" /\ left = 0 /\ ~shut /\ fin' = TRUE /\ shut' = TRUE /\ m' = "spam" /\ UNCHANGED <<w, jobs, awake, same, nfin, left>>
SpamTest == m = "spam" /\ m' = (IF nfin = N - 1 THEN "over" ELSE IF awake < N THEN "sbump" ELSE IF SpamShutdown THEN "spam" ELSE "join")
            /\ UNCHANGED <<w, jobs, awake, same, fin, nfin, left, shut>>
SpamBump == m = "sbump" /\ same' = {} /\ m' = "snotify" /\ UNCHANGED <<w, jobs, awake, fin, nfin, left, shut>>
SpamNotify == /\ m = "snotify" /\ m' = (IF SpamShutdown THEN "spam" ELSE "join")
              /\ w' = [x \in Workers |-> IF w[x] = "asleep" THEN "woken" ELSE w[x]]
              /\ UNCHANGED <<jobs, awake, same, fin, nfin, left, shut>>
JoinAll == m = "join" /\ nfin = N - 1 /\ m' = "over" /\ UNCHANGED <<w, jobs, awake, same, fin, nfin, left, shut>>
\* ---- workers
Set(x, s) == w' = [w EXCEPT ![x] = s]
Wake(x) == w[x] = "woken" /\ Set(x, "loop") /\ awake' = awake + 1 /\ UNCHANGED <<m, jobs, same, fin, nfin, left, shut>>
Loop(x) == w[x] = "loop" /\ Set(x, IF fin THEN "end" ELSE "look") /\ UNCHANGED <<m, jobs, awake, same, fin, nfin, left, shut>>
Steal(x) == w[x] = "look" /\ jobs = 1 /\ jobs' = 0 /\ Set(x, "run") /\ UNCHANGED <<m, awake, same, fin, nfin, left, shut>>
Run(x) == w[x] = "run" /\ Set(x, "loop") /\ UNCHANGED <<m, jobs, awake, same, fin, nfin, left, shut>>
GiveUp(x) == w[x] = "look" /\ jobs = 0 /\ Set(x, IF fin THEN "loop" ELSE "dec") /\ UNCHANGED <<m, jobs, awake, same, fin, nfin, left, shut>>
Dec(x) == w[x] = "dec" /\ awake' = awake - 1 /\ Set(x, "load") /\ UNCHANGED <<m, jobs, same, fin, nfin, left, shut>>
Load(x) == w[x] = "load" /\ same' = same \cup {x} /\ Set(x, "test") /\ UNCHANGED <<m, jobs, awake, fin, nfin, left, shut>>
Sleep(x) == w[x] = "test" /\ Set(x, IF x \in same THEN "asleep" ELSE "woken") /\ UNCHANGED <<m, jobs, awake, same, fin, nfin, left, shut>>
End(x) == w[x] = "end" /\ Set(x, "gone") /\ nfin' = nfin + 1 /\ UNCHANGED <<m, jobs, awake, same, fin, left, shut>>
Main == Fork \/ WakeTest \/ WakeBump \/ Notify \/ RunOwn \/ Joined \/ ShutBegin \/ SpamTest \/ SpamBump \/ SpamNotify \/ JoinAll
Worker(x) == Wake(x) \/ Loop(x) \/ Steal(x) \/ Run(x) \/ GiveUp(x) \/ Dec(x) \/ Load(x) \/ Sleep(x) \/ End(x)
Next == Main \/ \E x \in Workers : Worker(x)
Spec == Init /\ [][Next]_vars /\ WF_vars(Main) /\ \A x \in Workers : WF_vars(Worker(x))
------------------------------------------------------------------------------
\* the count of those awake is what it says, up to those on their way in or out
Counts == awake = 1 + Cardinality({ x \in Workers : w[x] \in {"loop", "look", "run", "dec", "end", "gone"} })
Terminates == <>(m = "over" /\ \A x \in Workers : w[x] = "gone")
OneRuns == Cardinality({ x \in Workers : w[x] = "run" }) <= 1
=============================================================================
