------------------------------- MODULE C19_fn -------------------------------
\* p = <<operations, source, op1, op2, op3, modes.., q, life cycle, consumer, n>>
EXTENDS Pipeline, FnDriver, TLC
Ok(r) ==
  LET p == r.p
      d == [b |-> r.i[2], flat |-> r.i[3], off |-> r.i[4], q |-> p[9]]
      s == Denote(SubSeq(p, 3, 2 + p[1]), r.i[1], d)
  IN /\ r.f = "pipe" /\ r.o[1][1] = 1 /\ r.o[1][2] = Len(s) /\ Consumed(p[11], s, r.o[2])
=============================================================================
