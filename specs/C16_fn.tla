------------------------------- MODULE C16_fn -------------------------------
\* p = <<operator, length>>, i = input arrays, o = <<<<input untouched, moved-from reads>>, total, outputs...>>
EXTENDS Fold, FnDriver
Ok(r) ==
  LET op == r.p[1]  n == r.p[2]  t == r.o[2]  o == SubSeq(r.o, 3, Len(r.o))  w == IF op \in {6, 7} THEN 2 ELSE 1 IN
  /\ r.o[1] = <<1, 0>>
  /\ CASE r.f = "reduce" -> t = FoldAll(op, r.i, n)
       [] r.f \in {"scan", "scan_inplace"} -> Len(o) = w /\ Exclusive(op, r.i, n, o, t)
       [] r.f = "scan_inclusive" -> Len(o) = w /\ Inclusive(op, r.i, n, o)
       [] r.f = "scan_inclusive_inplace" -> Len(o) = w /\ Inclusive(op, r.i, n, o) /\ t = (IF n = 0 THEN Identity(op) ELSE At(o, n))
       [] OTHER -> FALSE
=============================================================================
