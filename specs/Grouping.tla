------------------------------ MODULE Grouping ------------------------------
(* Grouping a sequence of keys v.  Two keys are equal when they are in the   *)
(* same class (q: 0 identity, 1 div 4, 2 mod 5).  A grouping is described by *)
(* wk (the classes, increasing), ws (offsets) and wi (positions, from 0):    *)
(* group g consists of the positions wi[ws[g]+1 .. ws[g+1]].                 *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
Cls(q, k) == CASE q = 0 -> k [] q = 1 -> k \div 4 [] OTHER -> k % 5
IsGrouping(v, q, wk, ws, wi) ==
  LET G == Len(wk)  n == Len(v) IN
  /\ Len(ws) = G + 1 /\ ws[1] = 0 /\ ws[G + 1] = n /\ Len(wi) = n
  /\ \A g \in 1..(G - 1) : wk[g] < wk[g + 1]
  /\ \A g \in 1..G : /\ ws[g] < ws[g + 1]
                     /\ \A j \in (ws[g] + 1)..ws[g + 1] : /\ wi[j] \in 0..(n - 1) /\ Cls(q, v[wi[j] + 1]) = wk[g]
                                                          /\ j > ws[g] + 1 => wi[j - 1] < wi[j]
\* the keys a (found at positions b, -1 when unknown) represent the classes in the order given by Pos
Represents(v, q, wk, a, b, Pos(_)) ==
  /\ Len(a) = Len(wk) /\ Len(b) = Len(wk)
  /\ \A g \in 1..Len(wk) : /\ Cls(q, a[g]) = wk[Pos(g)]
                           /\ b[g] = -1 \/ (b[g] \in 0..(Len(v) - 1) /\ v[b[g] + 1] = a[g])
Weight(i) == 1 + (i % 1000)
SumOf(wi, a, b) == FoldLeft(LAMBDA acc, x : acc + Weight(x), 0, SubSeq(wi, a + 1, b))
MaxOf(wi, a, b) == FoldLeft(LAMBDA acc, x : IF Weight(x) > acc THEN Weight(x) ELSE acc, 0, SubSeq(wi, a + 1, b))
=============================================================================
