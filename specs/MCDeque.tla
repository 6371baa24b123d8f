------------------------------- MODULE MCDeque -------------------------------
(* The algorithm of internal::Deque: the ABP deque with an age (tag, top)    *)
(* word and a bottom index, one step per atomic operation.  The owner's      *)
(* stores of bot go through a store buffer (they are release stores), which  *)
(* its read-modify-write operations, its sequentially consistent store and   *)
(* the fence in pop_bottom drain.  abs is the abstract deque: Abs is applied *)
(* at the moments at which operations take effect.                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Jobs,        \* jobs are 1..Jobs, pushed in this order
          Thieves,     \* set of thief names
          Steals,      \* attempts of each thief
          Pops,        \* pops of the owner at most
          Fence        \* is the fence there
VARIABLES bot, buf,    \* bottom in memory, the owner's buffered stores of it
          age, deq, o, th, n, got, pops
vars == <<bot, buf, age, deq, o, th, n, got, pops>>
NoJob == 0
Init == /\ bot = 0 /\ buf = <<>> /\ age = <<0, 0>> /\ deq = [i \in 0..Jobs |-> NoJob]
        /\ o = [pc |-> "idle", b |-> 0, job |-> NoJob, a |-> <<0, 0>>]
        /\ th = [t \in Thieves |-> [pc |-> "idle", a |-> <<0, 0>>, b |-> 0, job |-> NoJob, left |-> Steals]]
        /\ n = 0 /\ got = [j \in 1..Jobs |-> 0] /\ pops = Pops
OwnBot == IF buf = <<>> THEN bot ELSE buf[Len(buf)]
Flush == buf # <<>> /\ bot' = Head(buf) /\ buf' = Tail(buf) /\ UNCHANGED <<age, deq, o, th, n, got, pops>>
\* push_bottom: store the job, then bot (seq_cst)
PushJob == /\ o.pc = "idle" /\ n < Jobs
           /\ deq' = [deq EXCEPT ![OwnBot] = n + 1] /\ n' = n + 1
           /\ o' = [o EXCEPT !.pc = "push", !.b = OwnBot + 1]
           /\ UNCHANGED <<bot, buf, age, th, got, pops>>
PushBot == /\ o.pc = "push" /\ buf = <<>> /\ bot' = o.b /\ o' = [o EXCEPT !.pc = "idle"]
           /\ UNCHANGED <<buf, age, deq, th, n, got, pops>>
PopBegin == /\ o.pc = "idle" /\ pops > 0 /\ pops' = pops - 1
            /\ IF OwnBot = 0 THEN UNCHANGED <<o, buf>>
               ELSE /\ o' = [o EXCEPT !.pc = "fence", !.b = OwnBot - 1]
                    /\ buf' = Append(buf, OwnBot - 1)
            /\ UNCHANGED <<bot, age, deq, th, n, got>>
PopFence == /\ o.pc = "fence" /\ (Fence => buf = <<>>) /\ o' = [o EXCEPT !.pc = "age", !.job = deq[o.b]]
            /\ UNCHANGED <<bot, buf, age, deq, th, n, got, pops>>
PopAge == /\ o.pc = "age"
          /\ IF o.b > age[2]
             THEN /\ got' = [got EXCEPT ![o.job] = @ + 1] /\ o' = [o EXCEPT !.pc = "idle"] /\ UNCHANGED buf
             ELSE /\ o' = [o EXCEPT !.pc = "cas", !.a = age] /\ buf' = Append(buf, 0) /\ UNCHANGED got
          /\ UNCHANGED <<bot, age, deq, th, n, pops>>
\* compare-and-swap and the final store are sequentially consistent: they drain the buffer
PopCas == /\ o.pc = "cas" /\ buf = <<>>
          /\ IF o.b = o.a[2] /\ age = o.a
             THEN age' = <<o.a[1] + 1, 0>> /\ got' = [got EXCEPT ![o.job] = @ + 1] /\ o' = [o EXCEPT !.pc = "idle"]
             ELSE o' = [o EXCEPT !.pc = "reset"] /\ UNCHANGED <<age, got>>
          /\ UNCHANGED <<bot, buf, deq, th, n, pops>>
PopReset == /\ o.pc = "reset" /\ buf = <<>> /\ age' = <<o.a[1] + 1, 0>> /\ o' = [o EXCEPT !.pc = "idle"]
            /\ UNCHANGED <<bot, buf, deq, th, n, got, pops>>
\* pop_top
StealAge(t) == /\ th[t].pc = "idle" /\ th[t].left > 0
               /\ th' = [th EXCEPT ![t].pc = "bot", ![t].a = age, ![t].left = @ - 1]
               /\ UNCHANGED <<bot, buf, age, deq, o, n, got, pops>>
StealBot(t) == /\ th[t].pc = "bot" /\ th' = [th EXCEPT ![t].pc = IF bot > th[t].a[2] THEN "job" ELSE "idle", ![t].b = bot]
               /\ UNCHANGED <<bot, buf, age, deq, o, n, got, pops>>
StealJob(t) == /\ th[t].pc = "job" /\ th' = [th EXCEPT ![t].pc = "cas", ![t].job = deq[th[t].a[2]]]
               /\ UNCHANGED <<bot, buf, age, deq, o, n, got, pops>>
StealCas(t) == /\ th[t].pc = "cas" /\ th' = [th EXCEPT ![t].pc = "idle"]
               /\ IF age = th[t].a
                  THEN age' = <<age[1], age[2] + 1>> /\ got' = [got EXCEPT ![th[t].job] = @ + 1]
                  ELSE UNCHANGED <<age, got>>
               /\ UNCHANGED <<bot, buf, deq, o, n, pops>>
Next == Flush \/ PushJob \/ PushBot \/ PopBegin \/ PopFence \/ PopAge \/ PopCas \/ PopReset
        \/ \E t \in Thieves : StealAge(t) \/ StealBot(t) \/ StealJob(t) \/ StealCas(t)
Spec == Init /\ [][Next]_vars
Sym == Permutations(Thieves)
------------------------------------------------------------------------------
AtMostOnce == \A j \in 1..Jobs : got[j] <= 1
Quiet == o.pc = "idle" /\ buf = <<>> /\ \A t \in Thieves : th[t].pc = "idle"
\* what is left in the deque is exactly what nobody has got, in order
Left == [i \in 1..(IF bot > age[2] THEN bot - age[2] ELSE 0) |-> deq[age[2] + i - 1]]
NothingLost == Quiet => /\ \A j \in 1..n : (got[j] = 1) # (\E i \in DOMAIN Left : Left[i] = j)
                        /\ \A i, k \in DOMAIN Left : i < k => Left[i] < Left[k]
=============================================================================
