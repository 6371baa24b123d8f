------------------------------- MODULE HashSet -------------------------------
(* A set of keyed elements changed in phases: within a phase of inserts,     *)
(* updates or deletes the order of the operations does not matter.           *)
(* State: the content (a function from keys to values), and what the phase   *)
(* under way has done so far.                                                 *)
EXTENDS Integers, Sequences, FiniteSets
HSInit(p) == { [mode |-> p[1], con |-> [k \in {} |-> 0], kind |-> -1, nt |-> 0, add |-> 0, tru |-> 0, ent |-> <<>>, ref |-> <<>>, rk |-> {}, over |-> FALSE] }
Has(s, k) == k \in DOMAIN s.con
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Max(a, b) == IF a > b THEN a ELSE b
With(s, k, v) == IF ~Has(s, k) THEN Put(s.con, k, v) ELSE IF s.mode = 1 THEN Put(s.con, k, Max(s.con[k], v)) ELSE IF s.mode = 2 THEN Put(s.con, k, s.con[k] + v) ELSE s.con
\* the result of the operation when it runs alone
Alone(s, k, v) == IF ~Has(s, k) THEN 1 ELSE IF s.mode = 1 THEN (IF v > s.con[k] THEN 1 ELSE 0) ELSE IF s.mode = 2 THEN 1 ELSE 0
HSPost(s, e) ==
  LET k == e[2]  a == e[3]  b == e[4]  c == e[5] IN
  CASE k = 1 -> { [s EXCEPT !.kind = a, !.nt = b, !.add = 0, !.tru = 0, !.ent = <<>>, !.ref = <<>>, !.rk = {}] }
    [] k \in {2, 6} -> IF s.kind = (IF k = 2 THEN 0 ELSE 1) /\ (s.nt = 1 => c = Alone(s, a, b))
                       THEN { [s EXCEPT !.con = With(s, a, b), !.add = IF Has(s, a) THEN @ ELSE @ + 1, !.tru = @ + c] } ELSE {}
    [] k = 4 -> IF s.kind = 2 THEN { [s EXCEPT !.con = [x \in DOMAIN @ \ {a} |-> @[x]]] } ELSE {}
    [] k = 8 -> IF s.mode = 0 /\ s.kind < 2 => s.tru = s.add THEN { [s EXCEPT !.kind = -1] } ELSE {}
    [] k = 10 -> IF b = (IF Has(s, a) THEN s.con[a] ELSE -1) THEN { s } ELSE {}
    [] k = 12 -> IF a = Cardinality(DOMAIN s.con) THEN { s } ELSE {}
    [] k = 14 -> IF a = Len(s.ent) /\ Has(s, b) /\ s.con[b] = c /\ ~\E i \in 1..Len(s.ent) : s.ent[i] = b THEN { [s EXCEPT !.ent = Append(@, b)] } ELSE {}
    [] k = 16 -> IF Len(s.ent) = Cardinality(DOMAIN s.con) /\ a < Len(s.ent) /\ s.ent[a + 1] = b /\ s.con[b] = c THEN { s } ELSE {}
    [] k = 18 -> IF Has(s, a) = (b # -1) /\ (b # -1 => b < Len(s.ent) /\ s.ent[b + 1] = a) THEN { s } ELSE {}
    [] k = 20 -> { [s EXCEPT !.over = TRUE] }
    [] OTHER -> {}
HSFinal(s) == s.over
=============================================================================
