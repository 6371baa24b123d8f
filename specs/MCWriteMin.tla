------------------------------ MODULE MCWriteMin ------------------------------
(* write_min, write_max and write_add on one location: load, compare, swap   *)
(* until the swap succeeds or the value is no better.  The swap may fail     *)
(* spuriously.                                                                *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Kind, Args, Retry   \* per thread; Retry: a failed swap reads the location again
Kinds == <<"min", "min", "max", "add">>
ArgsDef == <<2, 1, 9, 3>>
KindsMin == <<"min", "min", "min">>
ArgsMin == <<2, 1, 2>>
Threads == DOMAIN Kind
VARIABLES v, th, abs, chain
vars == <<v, th, abs, chain>>
Init == v = 5 /\ abs = 5 /\ chain = <<>> /\ th = [t \in Threads |-> [pc |-> "load", c |-> 0, r |-> FALSE, f |-> 0]]
Better(t, c) == CASE Kind[t] = "min" -> Args[t] < c [] Kind[t] = "max" -> c < Args[t] [] OTHER -> TRUE
New(t, c) == IF Kind[t] = "add" THEN c + Args[t] ELSE Args[t]
Load(t) == th[t].pc = "load" /\ th' = [th EXCEPT ![t].c = v, ![t].pc = IF Better(t, v) THEN "cas" ELSE "done"] /\ UNCHANGED <<v, abs, chain>>
\* the abstract operation takes effect with the swap (or with the load that finds nothing to do)
Cas(t) == /\ th[t].pc = "cas" /\ v = th[t].c /\ v' = New(t, v) /\ abs' = (IF Better(t, abs) THEN New(t, abs) ELSE abs)
          /\ chain' = Append(chain, <<t, v, v'>>) /\ th' = [th EXCEPT ![t].pc = "done", ![t].r = TRUE]
Fail(t) == /\ th[t].pc = "cas" /\ (v # th[t].c \/ th[t].f = 0) /\ th' = [th EXCEPT ![t].pc = IF Retry THEN "load" ELSE "done", ![t].f = IF v = th[t].c THEN 1 ELSE @]
           /\ UNCHANGED <<v, abs, chain>>
Next == \E t \in Threads : Load(t) \/ Cas(t) \/ Fail(t)
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : WF_vars(Load(t) \/ Cas(t) \/ (v # th[t].c /\ Fail(t)))
Same == v = abs
Improves == \A i \in DOMAIN chain : Better(chain[i][1], chain[i][2]) \/ Kind[chain[i][1]] = "add"
RECURSIVE Least(_)
Least(S) == IF S = {} THEN 5 ELSE LET t == CHOOSE t \in S : TRUE  m == Least(S \ {t}) IN IF Args[t] < m THEN Args[t] ELSE m
Final == (\A t \in Threads : Kind[t] = "min" /\ th[t].pc = "done") => v = Least(Threads) /\ Cardinality({ t \in Threads : th[t].r }) = Len(chain)
Ends == <>(\A t \in Threads : th[t].pc = "done")
=============================================================================
