-------------------------------- MODULE MCTls --------------------------------
(* The growing array of thread-specific objects: chunks of P, P, 2P, 4P, ..  *)
(* elements, each made by the first thread that misses it, under a lock, and *)
(* published when its elements have been constructed.  Thread t owns element *)
(* Own[t]; the Visitors go over all elements instead.  One step per atomic   *)
(* operation and per constructed element.                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS P, N, Threads, Visitors, Recheck, Late   \* Late: published after construction
Chunks == 0..3
Size(c) == IF c = 0 THEN P ELSE P * 2^(c - 1)
ChunkOf(i) == CHOOSE c \in Chunks : (IF c = 0 THEN 0 ELSE Size(c)) <= i /\ i < (IF c = 0 THEN P ELSE 2 * Size(c))
PosOf(i) == IF ChunkOf(i) = 0 THEN i ELSE i - Size(ChunkOf(i))
IndexOf(c, p) == IF c = 0 THEN p ELSE Size(c) + p
\* chunk and position name every element exactly once
ASSUME \A i \in 0..(P * 2^3 - 1) : PosOf(i) \in 0..(Size(ChunkOf(i)) - 1) /\ IndexOf(ChunkOf(i), PosOf(i)) = i
VARIABLES ptr, copies, lock, th, seen
vars == <<ptr, copies, lock, th, seen>>
\* copies[m]: the chunk a block of memory m holds and its constructed positions
Nil == 0
Want(t) == IF t \in Visitors THEN th[t].at ELSE th[t].id
Init == /\ ptr = [c \in Chunks |-> IF c = 0 THEN 1 ELSE Nil] /\ lock = {} /\ seen = {}
        /\ copies = <<[c |-> 0, built |-> 0..(P - 1)]>>
        /\ th \in { f \in [Threads -> [pc : {"miss"}, id : 0..(N - 1), at : {0}, m : {0}, k : {0}]] :
                    \A t, u \in Threads : (t # u /\ t \notin Visitors /\ u \notin Visitors) => f[t].id # f[u].id }
Go(t, r) == th' = [th EXCEPT ![t] = r]
Miss(t) == /\ th[t].pc = "miss" /\ Go(t, [th[t] EXCEPT !.pc = IF ptr[ChunkOf(Want(t))] = Nil THEN "lock" ELSE "use"])
           /\ UNCHANGED <<ptr, copies, lock, seen>>
Lock(t) == /\ th[t].pc = "lock" /\ lock = {} /\ lock' = {t} /\ Go(t, [th[t] EXCEPT !.pc = "look"]) /\ UNCHANGED <<ptr, copies, seen>>
Look(t) == /\ th[t].pc = "look"
           /\ IF Recheck /\ ptr[ChunkOf(Want(t))] # Nil THEN Go(t, [th[t] EXCEPT !.pc = "unlock"]) /\ UNCHANGED <<ptr, copies>>
              ELSE /\ copies' = Append(copies, [c |-> ChunkOf(Want(t)), built |-> {}])
                   /\ ptr' = (IF Late THEN ptr ELSE [ptr EXCEPT ![ChunkOf(Want(t))] = Len(copies) + 1])
                   /\ Go(t, [th[t] EXCEPT !.pc = "build", !.m = Len(copies) + 1, !.k = 0])
           /\ UNCHANGED <<lock, seen>>
Build(t) == /\ th[t].pc = "build" /\ th[t].k < Size(ChunkOf(Want(t)))
            /\ copies' = [copies EXCEPT ![th[t].m].built = @ \cup {th[t].k}]
            /\ Go(t, [th[t] EXCEPT !.k = @ + 1]) /\ UNCHANGED <<ptr, lock, seen>>
Publish(t) == /\ th[t].pc = "build" /\ th[t].k = Size(ChunkOf(Want(t)))
              /\ ptr' = [ptr EXCEPT ![ChunkOf(Want(t))] = th[t].m] /\ Go(t, [th[t] EXCEPT !.pc = "unlock"]) /\ UNCHANGED <<copies, lock, seen>>
Unlock(t) == th[t].pc = "unlock" /\ lock' = {} /\ Go(t, [th[t] EXCEPT !.pc = "use"]) /\ UNCHANGED <<ptr, copies, seen>>
\* the element that is used: its block of memory and position
Use(t) == LET i == Want(t) IN
          /\ th[t].pc = "use" /\ seen' = seen \cup {<<i, ptr[ChunkOf(i)], PosOf(i), PosOf(i) \in copies[ptr[ChunkOf(i)]].built>>}
          /\ Go(t, IF t \in Visitors /\ i + 1 < N THEN [th[t] EXCEPT !.at = i + 1, !.pc = "miss"] ELSE [th[t] EXCEPT !.pc = "again"])
          /\ UNCHANGED <<ptr, copies, lock>>
\* an owner comes back once
Again(t) == th[t].pc = "again" /\ t \notin Visitors /\ th[t].at = 0 /\ Go(t, [th[t] EXCEPT !.pc = "miss", !.at = 1]) /\ UNCHANGED <<ptr, copies, lock, seen>>
Next == \E t \in Threads : Miss(t) \/ Lock(t) \/ Look(t) \/ Build(t) \/ Publish(t) \/ Unlock(t) \/ Use(t) \/ Again(t)
Spec == Init /\ [][Next]_vars
------------------------------------------------------------------------------
Constructed == \A s \in seen : s[4]
\* an element never moves, and is nobody else's
Fixed == \A s, q \in seen : (s[1] = q[1]) <=> (s[2] = q[2] /\ s[3] = q[3])
\* nothing is made twice or dropped
NoSpare == \A m, n \in DOMAIN copies : m # n => copies[m].c # copies[n].c
Done == (\A t \in Threads : th[t].pc = "again" /\ (t \in Visitors \/ th[t].at = 1)) =>
        lock = {} /\ \A m \in DOMAIN copies : ptr[copies[m].c] = m /\ copies[m].built = 0..(Size(copies[m].c) - 1)
=============================================================================
