------------------------------- MODULE MCStack -------------------------------
(* The stack algorithm with hazard pointers: head, nodes with next and       *)
(* length, one announcement per thread, retired nodes that are freed when    *)
(* no announcement names them and are then used again for new elements.      *)
(* One step per atomic operation.  abs is the abstract stack, changed at the *)
(* successful compare-and-swap: the algorithm refines LifoStack when head's  *)
(* chain always spells abs.                                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Threads, Nodes, Ops,  \* operations per thread
          Recheck,              \* acquire looks at the source again after announcing
          Scan                  \* reclamation looks at the announcements
VARIABLES head, next, len, val, free, ret, ann, th, abs, fresh
vars == <<head, next, len, val, free, ret, ann, th, abs, fresh>>
Nil == 0
Init == /\ head = Nil /\ next = [x \in Nodes |-> Nil] /\ len = [x \in Nodes |-> 0] /\ val = [x \in Nodes |-> 0]
        /\ free = Nodes /\ ret = {} /\ ann = [t \in Threads |-> Nil] /\ abs = <<>> /\ fresh = 1
        /\ th = [t \in Threads |-> [pc |-> "idle", op |-> "none", n |-> Nil, h |-> Nil, nx |-> Nil, k |-> Ops, bad |-> FALSE]]
Go(t, r) == th' = [th EXCEPT ![t] = r]
T(t) == th[t]
Live(x) == x \notin free
\* push: take a fresh node (any free one: the allocator may hand out what was just freed)
Push(t) == /\ T(t).pc = "idle" /\ T(t).k > 0
           /\ \E x \in free : /\ free' = free \ {x} /\ val' = [val EXCEPT ![x] = fresh]
                              /\ Go(t, [T(t) EXCEPT !.pc = "load", !.op = "push", !.n = x, !.k = @ - 1])
           /\ fresh' = fresh + 1 /\ UNCHANGED <<head, next, len, ret, ann, abs>>
Pop(t) == /\ T(t).pc = "idle" /\ T(t).k > 0 /\ Go(t, [T(t) EXCEPT !.pc = "load", !.op = "pop", !.k = @ - 1])
          /\ UNCHANGED <<head, next, len, val, free, ret, ann, abs, fresh>>
\* acquire
Load(t) == T(t).pc = "load" /\ Go(t, [T(t) EXCEPT !.pc = "ann", !.h = head]) /\ UNCHANGED <<head, next, len, val, free, ret, ann, abs, fresh>>
Announce(t) == /\ T(t).pc = "ann" /\ ann' = [ann EXCEPT ![t] = T(t).h] /\ Go(t, [T(t) EXCEPT !.pc = IF Recheck THEN "recheck" ELSE "read"])
               /\ UNCHANGED <<head, next, len, val, free, ret, abs, fresh>>
Check(t) == T(t).pc = "recheck" /\ Go(t, [T(t) EXCEPT !.pc = IF head = T(t).h THEN "read" ELSE "load"]) /\ UNCHANGED <<head, next, len, val, free, ret, ann, abs, fresh>>
\* read the node: its length (push) or its successor (pop); a freed node must not be read
Read(t) == /\ T(t).pc = "read"
           /\ LET h == T(t).h  b == T(t).bad \/ (h # Nil /\ ~Live(h)) IN
              IF T(t).op = "push"
              THEN /\ next' = [next EXCEPT ![T(t).n] = h] /\ len' = [len EXCEPT ![T(t).n] = IF h = Nil THEN 1 ELSE len[h] + 1]
                   /\ Go(t, [T(t) EXCEPT !.pc = "cas", !.bad = b])
              ELSE /\ UNCHANGED <<next, len>>
                   /\ IF h = Nil THEN Go(t, [T(t) EXCEPT !.pc = "idle"]) ELSE Go(t, [T(t) EXCEPT !.pc = "cas", !.nx = next[h], !.bad = b])
           /\ UNCHANGED <<head, val, free, ret, ann, abs, fresh>>
Cas(t) == /\ T(t).pc = "cas"
          /\ IF head # T(t).h THEN Go(t, [T(t) EXCEPT !.pc = "load"]) /\ UNCHANGED <<head, abs, ret>>
             ELSE IF T(t).op = "push"
             THEN head' = T(t).n /\ abs' = <<val[T(t).n]>> \o abs /\ Go(t, [T(t) EXCEPT !.pc = "rel"]) /\ UNCHANGED ret
             ELSE /\ head' = T(t).nx /\ abs' = (IF abs = <<>> THEN abs ELSE Tail(abs))
                  /\ Go(t, [T(t) EXCEPT !.pc = "rel", !.bad = @ \/ abs = <<>> \/ Head(abs) # val[T(t).h]])
                  /\ ret' = ret \cup {T(t).h}
          /\ UNCHANGED <<next, len, val, free, ann, fresh>>
Release(t) == T(t).pc = "rel" /\ ann' = [ann EXCEPT ![t] = Nil] /\ Go(t, [T(t) EXCEPT !.pc = "idle"]) /\ UNCHANGED <<head, next, len, val, free, ret, abs, fresh>>
\* reclamation of a retired node by anybody, after a scan of the announcements made after it was retired
Reclaim(x) == /\ x \in ret /\ (Scan => \A t \in Threads : ann[t] # x)
              /\ ret' = ret \ {x} /\ free' = free \cup {x} /\ UNCHANGED <<head, next, len, val, ann, th, abs, fresh>>
Next == (\E t \in Threads : Push(t) \/ Pop(t) \/ Load(t) \/ Announce(t) \/ Check(t) \/ Read(t) \/ Cas(t) \/ Release(t)) \/ \E x \in Nodes : Reclaim(x)
Spec == Init /\ [][Next]_vars
Sym == Permutations(Threads)
------------------------------------------------------------------------------
RECURSIVE Chain(_, _)
Chain(x, k) == IF x = Nil \/ k = 0 THEN <<>> ELSE <<x>> \o Chain(next[x], k - 1)
C == Chain(head, Cardinality(Nodes) + 1)
Refines == [i \in DOMAIN C |-> val[C[i]]] = abs
Lengths == head # Nil => len[head] = Len(abs)
NoFreedRead == \A t \in Threads : ~th[t].bad
ChainLive == \A i \in DOMAIN C : C[i] \notin free \cup ret
=============================================================================
