------------------------------- MODULE C25_fn -------------------------------
(* A tree of forks and loops executed by another scheduler back end: every   *)
(* branch, index or block is a node that runs once, inside the execution of   *)
(* its parent, ended (with its writes visible) when the code after the fork   *)
(* or loop goes on; no two threads have one worker id at a moment.            *)
EXTENDS Integers, Sequences, FnDriver
Tree(r) ==
  LET par == r.i[1] o == r.o N == Len(r.i[1]) nw == o[9][1]
      runs == o[1] beg == o[2] end == o[3] join == o[4] seen == o[5] wid == o[6] thr == o[7] bad == o[8] IN
  /\ \A k \in 1..N : /\ runs[k] = 1 /\ bad[k] = 0 /\ 0 <= beg[k] /\ beg[k] < end[k] /\ end[k] < join[k]
                     /\ seen[k] = 1000 + k - 1
                     /\ wid[k] \in 0..nw-1
                     /\ par[k] >= 0 => beg[par[k] + 1] < beg[k] /\ join[k] < end[par[k] + 1]
  /\ \A k \in 1..N : \A l \in 1..(k - 1) : (beg[k] < end[l] /\ beg[l] < end[k] /\ thr[k] # thr[l]) => wid[k] # wid[l]
Ok(r) ==
  CASE r.f = "tree" -> Tree(r)
    [] r.f = "none" -> r.o[1] = <<0>>
    \* every index once, none beyond: runs of equal counters are recorded by their beginnings
    [] r.f = "loop" -> LET n == r.p[1] IN
         IF n = 0 THEN r.o = << <<0>>, <<0>> >> ELSE r.o = << <<0, n>>, <<3, 0>> >>
    [] OTHER -> FALSE
=============================================================================
