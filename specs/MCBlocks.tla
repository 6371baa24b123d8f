------------------------------- MODULE MCBlocks -------------------------------
(* The block allocator's algorithm: each thread has a local list of up to    *)
(* 2*L blocks with a mid pointer; a full list gives its older half to a      *)
(* shared stack of lists of L blocks, an empty one takes a list from there   *)
(* or claims a new one.  While a task fetches a list it may be moved to      *)
(* another thread, so the local list is looked at again afterwards.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Threads, L, MaxClaims, MaxOut,
          Again   \* look at the local list again after fetching a list
VARIABLES loc,     \* local list per thread, newest first, with the mid position (counted from the old end)
          pool,    \* the shared stack of lists
          claims, out, lost, task
vars == <<loc, pool, claims, out, lost, task>>
Blocks(c) == [i \in 1..L |-> c * L + i]
Init == /\ loc = [t \in Threads |-> [q |-> <<>>, mid |-> 0]] /\ pool = <<>> /\ claims = 0 /\ out = {} /\ lost = {}
        /\ task = [t \in Threads |-> [pc |-> "idle", l |-> <<>>]]
\* the local list's blocks are q[1] (head) .. q[Len]; mid = number of blocks from mid to the end
Alloc(t) == /\ task[t].pc = "idle" /\ Cardinality(out) < MaxOut
            /\ IF loc[t].q = <<>> THEN task' = [task EXCEPT ![t].pc = "fetch"] /\ UNCHANGED <<loc, out>>
               ELSE loc' = [loc EXCEPT ![t].q = Tail(@)] /\ out' = out \cup {Head(loc[t].q)} /\ UNCHANGED task
            /\ UNCHANGED <<pool, claims, lost>>
FetchPool(t) == task[t].pc = "fetch" /\ pool # <<>> /\ pool' = Tail(pool) /\ task' = [task EXCEPT ![t].pc = "got", ![t].l = Head(pool)] /\ UNCHANGED <<loc, claims, out, lost>>
FetchNew(t) == task[t].pc = "fetch" /\ pool = <<>> /\ claims < MaxClaims /\ claims' = claims + 1 /\ task' = [task EXCEPT ![t].pc = "got", ![t].l = Blocks(claims)] /\ UNCHANGED <<loc, pool, out, lost>>
\* the task goes on on another thread, which has nothing else to do
Move(t, u) == /\ t # u /\ task[t].pc = "got" /\ task[u].pc = "idle" /\ task' = [task EXCEPT ![u] = task[t], ![t] = [pc |-> "idle", l |-> <<>>]] /\ UNCHANGED <<loc, pool, claims, out, lost>>
Install(t) == /\ task[t].pc = "got" /\ task' = [task EXCEPT ![t] = [pc |-> "take", l |-> <<>>]]
              /\ IF loc[t].q = <<>> \/ ~Again
                 THEN loc' = [loc EXCEPT ![t].q = task[t].l] /\ lost' = lost \cup { loc[t].q[i] : i \in DOMAIN loc[t].q } /\ UNCHANGED pool
                 ELSE pool' = <<task[t].l>> \o pool /\ UNCHANGED <<loc, lost>>
              /\ UNCHANGED <<claims, out>>
Take(t) == task[t].pc = "take" /\ loc' = [loc EXCEPT ![t].q = Tail(@)] /\ out' = out \cup {Head(loc[t].q)} /\ task' = [task EXCEPT ![t].pc = "idle"] /\ UNCHANGED <<pool, claims, lost>>
\* free of any block by any thread
FreeOne(t, b) ==
  /\ task[t].pc = "idle" /\ b \in out /\ out' = out \ {b}
  /\ LET q == loc[t].q  n == Len(q) IN
     IF n = L + 1 THEN loc' = [loc EXCEPT ![t] = [q |-> <<b>> \o q, mid |-> n]] /\ UNCHANGED pool
     ELSE IF n = 2 * L
     THEN LET m == n - loc[t].mid + 1   \* position of mid in q
          IN /\ pool' = <<SubSeq(q, m + 1, n)>> \o pool /\ loc' = [loc EXCEPT ![t].q = <<b>> \o SubSeq(q, 1, m)]
     ELSE loc' = [loc EXCEPT ![t].q = <<b>> \o q] /\ UNCHANGED pool
  /\ UNCHANGED <<claims, lost, task>>
Free(t) == \E b \in out : FreeOne(t, b)
Next == (\E t \in Threads : Alloc(t) \/ FetchPool(t) \/ FetchNew(t) \/ Install(t) \/ Take(t) \/ Free(t)) \/ \E t, u \in Threads : Move(t, u)
Spec == Init /\ [][Next]_vars
View == <<[t \in Threads |-> [n |-> Len(loc[t].q), m |-> loc[t].mid, s |-> loc[t].q]], pool, claims, out, lost, task>>
------------------------------------------------------------------------------
Range(q) == { q[i] : i \in DOMAIN q }
InLists == UNION { Range(loc[t].q) : t \in Threads } \cup UNION { Range(pool[i]) : i \in DOMAIN pool } \cup UNION { Range(task[t].l) : t \in Threads }
RECURSIVE SumLen(_)
SumLen(S) == IF S = {} THEN 0 ELSE LET t == CHOOSE t \in S : TRUE IN Len(loc[t].q) + Len(task[t].l) + SumLen(S \ {t})
OneOwner == out \cap InLists = {}
NoneTwice == SumLen(Threads) + L * Len(pool) = Cardinality(InLists)      \* and every list in the pool has L blocks
PoolLists == \A i \in DOMAIN pool : Len(pool[i]) = L
AllThere == Cardinality(InLists) + Cardinality(out) = claims * L         \* used = allocated - free
Short == \A t \in Threads : Len(loc[t].q) <= 2 * L
=============================================================================
