------------------------------- MODULE C13_fn -------------------------------
EXTENDS Sort, FnDriver
\* p = <<stable, copying, order>>, i = <<keys>>, o = <<keys, positions, <<input untouched, reads of moved-from>>>>
Ok(r) == /\ SortOutcome(r.p[1] = 1, r.p[3], r.i[1], r.o[1], r.o[2])
         /\ r.o[3][1] = 1 /\ r.o[3][2] = 0
=============================================================================
