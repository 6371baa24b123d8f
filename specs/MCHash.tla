-------------------------------- MODULE MCHash --------------------------------
(* The hash table's algorithm: linear probing in which a cell holds a key of  *)
(* higher priority than those that were probed past it; inserts bump keys of  *)
(* lower priority, deletes fill the hole from the cells behind it, both by    *)
(* compare-and-swap on one cell.  One step per access of a cell.  Threads     *)
(* insert concurrently, then delete concurrently.  The table must then hold   *)
(* what a set would (HashSet), in the one layout those keys have.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS M, Homes, Ins, Del, Replace \* cells, possible home cells, keys each thread inserts and deletes; Replace: fill holes (else just empty them)
Threads == DOMAIN Ins
E == 0
VARIABLES ta, th, phase, Home   \* Home: the hash function
vars == <<ta, th, phase, Home>>
Inc(i) == (i + 1) % M
Decr(i) == (i + M - 1) % M
Less(a, b) == IF a < b THEN 2 * (b - a) < M ELSE 2 * (a - b) > M
HomesDef == {0, 1, M - 1}
InsDef == <<<<1, 3>>, <<4, 2>>>>
DelDef == <<<<3>>, <<4, 1>>>>
InsDef2 == <<<<2, 1>>, <<3>>, <<4>>>>
DelDef2 == <<<<4>>, <<3>>, <<2>>>>
Cmp(v, c) == IF c = E THEN 1 ELSE IF v > c THEN 1 ELSE IF v = c THEN 0 ELSE -1
Idle(q) == [pc |-> "idle", v |-> E, i |-> 0, j |-> 0, c |-> E, x |-> E, jj |-> 0, k |-> 0, true |-> 0, todo |-> q]
Init == ta = [i \in 0..M-1 |-> E] /\ th = [t \in Threads |-> Idle(Ins[t])]  /\ phase = "insert" /\ Home \in [1..4 -> Homes]
Go(t, r) == th' = [th EXCEPT ![t] = r]
T(t) == th[t]
Stay == UNCHANGED <<ta, phase, Home>>
\* ---- insert
InsBegin(t) == /\ phase = "insert" /\ T(t).pc = "idle" /\ T(t).todo # <<>> /\ Stay
               /\ LET v == Head(T(t).todo) IN Go(t, [T(t) EXCEPT !.pc = "iload", !.v = v, !.i = Home[v], !.todo = Tail(@)])
InsLoad(t) == /\ T(t).pc = "iload" /\ Stay
              /\ LET c == ta[T(t).i] IN
                 Go(t, IF c = E \/ T(t).v > c THEN [T(t) EXCEPT !.pc = "icas", !.c = c]
                       ELSE IF T(t).v = c THEN [T(t) EXCEPT !.pc = "idle"]
                       ELSE [T(t) EXCEPT !.i = Inc(@)])
InsCas(t) == /\ T(t).pc = "icas" /\ UNCHANGED <<phase, Home>>
             /\ IF ta[T(t).i] = T(t).c
                THEN /\ ta' = [ta EXCEPT ![T(t).i] = T(t).v]
                     /\ Go(t, IF T(t).c = E THEN [T(t) EXCEPT !.pc = "idle", !.true = @ + 1] ELSE [T(t) EXCEPT !.pc = "iload", !.v = T(t).c, !.i = Inc(@)])
                ELSE UNCHANGED ta /\ Go(t, [T(t) EXCEPT !.pc = "iload"])
\* ---- delete
DelBegin(t) == /\ phase = "delete" /\ T(t).pc = "idle" /\ T(t).todo # <<>> /\ Stay
               /\ LET v == Head(T(t).todo)  c == ta[Home[v]] IN
                  Go(t, [T(t) EXCEPT !.pc = IF c = E THEN "idle" ELSE IF Cmp(v, c) < 0 THEN "dfwd" ELSE "dloop", !.v = v, !.i = Home[v], !.j = Home[v], !.c = c, !.todo = Tail(@)])
DelFwd(t) == /\ T(t).pc = "dfwd" /\ Stay
             /\ LET j == Inc(T(t).j)  c == ta[j] IN Go(t, [T(t) EXCEPT !.j = j, !.c = c, !.pc = IF Cmp(T(t).v, c) < 0 THEN "dfwd" ELSE "dloop"])
DelLoop(t) == /\ T(t).pc = "dloop" /\ Stay
              /\ IF T(t).c # T(t).v
                 THEN IF T(t).j = T(t).i THEN Go(t, [T(t) EXCEPT !.pc = "idle"])
                      ELSE Go(t, [T(t) EXCEPT !.j = Decr(@), !.c = ta[Decr(T(t).j)]])
                 ELSE IF ~Replace THEN Go(t, [T(t) EXCEPT !.pc = "dcas", !.x = E])
                 ELSE LET jj == Inc(T(t).j)  x == ta[jj] IN Go(t, [T(t) EXCEPT !.pc = IF x # E /\ Less(T(t).j, Home[x]) THEN "dfind" ELSE "dback", !.jj = jj, !.x = x, !.k = Decr(jj)])
DelFind(t) == /\ T(t).pc = "dfind" /\ Stay
              /\ LET jj == Inc(T(t).jj)  x == ta[jj] IN
                 Go(t, [T(t) EXCEPT !.pc = IF x # E /\ Less(T(t).j, Home[x]) THEN "dfind" ELSE "dback", !.jj = jj, !.x = x, !.k = Decr(jj)])
DelBack(t) == /\ T(t).pc = "dback" /\ Stay
              /\ IF T(t).k = T(t).j THEN Go(t, [T(t) EXCEPT !.pc = "dcas"])
                 ELSE LET y == ta[T(t).k] IN
                      Go(t, IF y = E \/ ~Less(T(t).j, Home[y]) THEN [T(t) EXCEPT !.x = y, !.jj = T(t).k, !.k = Decr(@)] ELSE [T(t) EXCEPT !.k = Decr(@)])
DelCas(t) == /\ T(t).pc = "dcas" /\ UNCHANGED <<phase, Home>>
             /\ IF ta[T(t).j] = T(t).c
                THEN /\ ta' = [ta EXCEPT ![T(t).j] = T(t).x]
                     /\ Go(t, IF T(t).x = E THEN [T(t) EXCEPT !.pc = "idle"] ELSE [T(t) EXCEPT !.pc = "dload", !.v = T(t).x, !.j = T(t).jj, !.i = Home[T(t).x]])
                ELSE UNCHANGED ta /\ Go(t, [T(t) EXCEPT !.pc = "dload"])
DelLoad(t) == T(t).pc = "dload" /\ Stay /\ Go(t, [T(t) EXCEPT !.c = ta[T(t).j], !.pc = "dloop"])
Rest == \A t \in Threads : T(t).pc = "idle" /\ T(t).todo = <<>>
Turn == /\ phase = "insert" /\ Rest /\ phase' = "delete" /\ th' = [t \in Threads |-> [Idle(Del[t]) EXCEPT !.true = T(t).true]] /\ UNCHANGED <<ta, Home>>
Next == Turn \/ \E t \in Threads : InsBegin(t) \/ InsLoad(t) \/ InsCas(t) \/ DelBegin(t) \/ DelFwd(t) \/ DelLoop(t) \/ DelFind(t) \/ DelBack(t) \/ DelCas(t) \/ DelLoad(t)
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : WF_vars((InsBegin(t) \/ InsLoad(t) \/ InsCas(t) \/ DelBegin(t) \/ DelFwd(t) \/ DelLoop(t) \/ DelFind(t) \/ DelBack(t) \/ DelCas(t) \/ DelLoad(t))) /\ WF_vars(Turn)
------------------------------------------------------------------------------
Range(q) == { q[i] : i \in DOMAIN q }
Inserted == UNION { Range(Ins[t]) : t \in Threads }
Deleted == UNION { Range(Del[t]) : t \in Threads }
Content == { ta[i] : i \in 0..M-1 } \ {E}
NoDup == \A i, j \in 0..M-1 : i # j /\ ta[i] # E => ta[i] # ta[j]
\* the layout: no cell between a key's home and its place is empty or holds a key of lower priority
Placed == \A i \in 0..M-1 : ta[i] # E => \A d \in 0..((i - Home[ta[i]] + M) % M) : ta[(Home[ta[i]] + d) % M] >= ta[i]
RECURSIVE Sum(_)
Sum(S) == IF S = {} THEN 0 ELSE LET t == CHOOSE t \in S : TRUE IN T(t).true + Sum(S \ {t})
IsSet == Rest => /\ NoDup /\ Placed
                 /\ Content = (IF phase = "insert" THEN Inserted ELSE Inserted \ Deleted)
                 /\ Sum(Threads) = Cardinality(Inserted)
Ends == <>(phase = "delete" /\ Rest)
=============================================================================
