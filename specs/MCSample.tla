------------------------------ MODULE MCSample ------------------------------
(* Sample sort as the library does it, for every input, every choice of pivots
   and every block size: each block is sorted and its elements are counted
   against the pivots (elements equal to repeated pivots get a bucket of their
   own), the buckets are gathered from the blocks, and each bucket is sorted,
   except those between equal pivots.  Blocks and buckets may be done in any
   order.  SkipLast is the mistake of leaving out the last bucket after equal
   pivots as well.                                                           *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC
CONSTANTS MaxN, Keys, MaxP, Blocks, SkipLast
VARIABLES v, piv, b, tmp, cnt, out, phase, pend
vars == <<v, piv, b, tmp, cnt, out, phase, pend>>
Least2(x, y) == IF x < y THEN x ELSE y
Less(x, y) == x[1] < y[1]
\* stable sort of elements <<key, position>>
Sorted(s) == SortSeq(s, LAMBDA x, y : x[1] < y[1] \/ (x[1] = y[1] /\ x[2] < y[2]))
n == Len(v)
NB == (n + b - 1) \div b
Place(k) == ((k - 1) * b + 1)..Least2(k * b, n)
RECURSIVE Below(_, _, _, _, _), Same(_, _, _, _, _)
Rest(A, P, i, j, c) == [c EXCEPT ![Len(P) + 1] = Len(A) - i + 1]
Below(A, P, i, j, c) ==
  IF A[i][1] < P[j] THEN (IF i = Len(A) THEN [c EXCEPT ![j] = @ + 1] ELSE Below(A, P, i + 1, j, [c EXCEPT ![j] = @ + 1]))
  ELSE IF j = Len(P) THEN Rest(A, P, i, j, c)
  ELSE IF P[j] < P[j + 1] THEN Below(A, P, i, j + 1, c) ELSE Same(A, P, i, j + 1, c)
Same(A, P, i, j, c) ==
  IF ~(P[j] < A[i][1]) THEN (IF i = Len(A) THEN [c EXCEPT ![j] = @ + 1] ELSE Same(A, P, i + 1, j, [c EXCEPT ![j] = @ + 1]))
  ELSE IF j = Len(P) THEN Rest(A, P, i, j, c)
  ELSE Below(A, P, i, j + 1, c)
NoCounts == [j \in 1..(Len(piv) + 1) |-> 0]
Init == /\ v \in UNION { [1..m -> Keys] : m \in 1..MaxN }
        /\ piv \in { p \in UNION { [1..m -> Keys] : m \in 1..MaxP } : \A j \in 1..(Len(p) - 1) : p[j] <= p[j + 1] }
        /\ b \in Blocks /\ tmp = <<>> /\ cnt = [k \in 1..NB |-> NoCounts] /\ out = <<>> /\ phase = "blocks" /\ pend = 1..NB
Block(k) == LET s == Sorted([j \in 1..Cardinality(Place(k)) |-> LET q == (k - 1) * b + j IN <<v[q], q>>]) IN
            /\ cnt' = [cnt EXCEPT ![k] = Below(s, piv, 1, 1, NoCounts)]
            /\ tmp' = [q \in DOMAIN tmp \union Place(k) |-> IF q \in Place(k) THEN s[q - (k - 1) * b] ELSE tmp[q]]
DoBlock == /\ phase = "blocks" /\ \E k \in pend : Block(k) /\ pend' = pend \ {k}
           /\ UNCHANGED <<v, piv, b, out, phase>>
\* where block k's part of bucket j begins within the block
From(k, j) == (k - 1) * b + 1 + FoldLeft(LAMBDA a, x : a + x, 0, SubSeq(cnt[k], 1, j - 1))
Part(k, j) == [q \in 1..cnt[k][j] |-> tmp[From(k, j) + q - 1]]
Gather == /\ phase = "blocks" /\ pend = {} /\ phase' = "buckets" /\ pend' = 1..(Len(piv) + 1)
          /\ out' = [j \in 1..(Len(piv) + 1) |-> FlattenSeq([k \in 1..NB |-> Part(k, j)])]
          /\ UNCHANGED <<v, piv, b, tmp, cnt>>
Needed(j) == j = 1 \/ (j = Len(piv) + 1 /\ ~SkipLast) \/ piv[j - 1] < piv[Least2(j, Len(piv))]
DoBucket == /\ phase = "buckets" /\ \E j \in pend : pend' = pend \ {j} /\ out' = IF Needed(j) THEN [out EXCEPT ![j] = Sorted(@)] ELSE out
            /\ UNCHANGED <<v, piv, b, tmp, cnt, phase>>
Next == DoBlock \/ Gather \/ DoBucket
Spec == Init /\ [][Next]_vars
------------------------------------------------------------------------------
Counted == phase = "buckets" => \A k \in 1..NB : FoldLeft(LAMBDA a, x : a + x, 0, cnt[k]) = Cardinality(Place(k))
Result == phase = "buckets" /\ pend = {} => FlattenSeq(out) = Sorted([q \in 1..n |-> <<v[q], q>>])
=============================================================================
