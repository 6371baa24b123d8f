------------------------------- MODULE Search -------------------------------
(* What the searching operations return.  Positions count from 0 and the     *)
(* length of the range means "not found"; sequences are TLA+ sequences.      *)
EXTENDS Integers, Sequences
Up(p, k) == CASE p = 0 -> k = 0 [] p = 1 -> TRUE [] p = 2 -> FALSE [] p = 3 -> k > 0 [] p = 4 -> k = 7 [] OTHER -> k % 3 = 1
Rel(q, a, b) == CASE q = 0 -> a = b [] q = 1 -> a < b [] q = 2 -> a = b + 1 [] q = 3 -> a \div 4 = b \div 4 [] OTHER -> b = 5
Rank(c, k) == CASE c = 0 -> k [] c = 1 -> -k [] c = 2 -> k \div 4 [] OTHER -> k % 5
Less(c, a, b) == Rank(c, a) < Rank(c, b)
Least(a, b) == IF a < b THEN a ELSE b
\* o is the first position of 0..n-1 where P holds, or n
First(n, o, P(_)) == /\ o \in 0..n
                     /\ \A j \in 0..(o - 1) : ~P(j)
                     /\ o < n => P(o)
\* o is the last position of 0..n-1 where P holds, or none if there is none
LastOne(n, o, none, P(_)) == \/ o \in 0..(n - 1) /\ P(o) /\ \A j \in (o + 1)..(n - 1) : ~P(j)
                             \/ o = none /\ \A j \in 0..(n - 1) : ~P(j)
MatchAt(q, v, w, j) == j + Len(w) <= Len(v) /\ \A k \in 1..Len(w) : Rel(q, v[j + k], w[k])
Count(n, P(_)) == Len(SelectSeq([j \in 1..n |-> j - 1], P))
Bool(b) == IF b THEN 1 ELSE 0
\* lexicographical order: 1 if a precedes b
LexLess(c, a, b) ==
  LET m == Least(Len(a), Len(b))
      D == SelectSeq([j \in 1..m |-> j], LAMBDA j : Less(c, a[j], b[j]) \/ Less(c, b[j], a[j]))
  IN IF D = <<>> THEN Len(a) < Len(b) ELSE Less(c, a[D[1]], b[D[1]])
\* o is the first position of a smallest element of v under the strict order Lt
FirstMin(v, o, Lt(_, _)) ==
  LET n == Len(v) IN
  IF n = 0 THEN o = 0
  ELSE /\ o \in 0..(n - 1)
       /\ \A j \in 1..n : ~Lt(v[j], v[o + 1])
       /\ \A j \in 1..o : Lt(v[o + 1], v[j])
=============================================================================
