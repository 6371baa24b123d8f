------------------------------- MODULE C22_fn -------------------------------
(* A record lists the classes of objects that had the same set of pairs of   *)
(* consecutive events and the same last event: <<count, last, 8a+e, ...>>.   *)
EXTENDS Naturals, Sequences, FnDriver
L == INSTANCE ObjectLife WITH state <- "unborn", last <- 7
Ok(r) == /\ r.f = "life" /\ r.p[1] >= 0
         /\ \A g \in 1..Len(r.o) : LET h == r.o[g] IN
              /\ L!Complete(h[2])
              /\ \A j \in 3..Len(h) : L!Legal(h[j] \div 8, h[j] % 8)
=============================================================================
