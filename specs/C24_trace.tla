---- MODULE C24_trace ----
(* Runs of one call with different numbers of workers under controlled schedules: every run
   must give what the first one, with a single worker, gave.                              *)
EXTENDS Determinism, TraceDriver
DInit(p) == {<<>>}
DPost(s, e) == LET d == SubSeq(e, 3, 6) IN IF s # <<>> /\ s # d THEN {} ELSE {d}
DFinal(s) == s # <<>>
====
