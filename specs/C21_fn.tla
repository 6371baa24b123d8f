------------------------------- MODULE C21_fn -------------------------------
(* A record is a history of operations with the value each returned and the *)
(* contents of the three containers after it: every step must be the one    *)
(* SeqContainer allows.  o[1] reports the facts observed inside operations:  *)
(* storage does not move without need, end() - begin() = size() <=          *)
(* capacity(), iterators agree with operator[], no element is read after it *)
(* was moved from, all memory is returned.                                  *)
EXTENDS SeqContainer, FnDriver
Dump(d) == LET n1 == d[1]  n2 == d[n1 + 2]  n3 == d[n1 + n2 + 3] IN
  << SubSeq(d, 2, n1 + 1), SubSeq(d, n1 + 3, n1 + n2 + 2), SubSeq(d, n1 + n2 + 4, n1 + n2 + n3 + 3) >>
Op(a, j) == [c |-> a[7 * j - 6], x |-> a[7 * j - 5] + 1, y |-> a[7 * j - 4] + 1, p |-> a[7 * j - 3], q |-> a[7 * j - 2], n |-> a[7 * j - 1], k |-> a[7 * j]]
Step(r, j) == LET s == IF j = 1 THEN <<<<>>, <<>>, <<>>>> ELSE Dump(r.o[j + 2])
                  op == Op(r.o[2], j)  IN
  /\ Dump(r.o[j + 3]) = After(s, op, r.p[1] = 2)
  /\ r.o[3][j] = Ret(s, op, r.p[1] = 6)
Ok(r) == r.f = "history" /\ r.o[1] = <<1, 1>> /\ \A j \in 1..r.p[2] : Step(r, j)
=============================================================================
