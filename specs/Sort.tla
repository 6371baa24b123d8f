-------------------------------- MODULE Sort --------------------------------
(* Sorting by a strict weak order given through a rank: a precedes b iff     *)
(* Rank(c, a) < Rank(c, b).  Elements are (key, position in the input).      *)
EXTENDS Integers, Sequences, FiniteSets
Rank(c, k) == CASE c = 0 -> k [] c = 1 -> -k [] c = 2 -> k \div 4 [] c = 3 -> k % 5 [] c = 4 -> k

\* x (positions) is a permutation of 0..n-1
IsPerm(x, n) == /\ Len(x) = n
                /\ \A j \in 1..n : x[j] >= 0 /\ x[j] < n
                /\ Cardinality({x[j] : j \in 1..n}) = n
\* ks/xs list the elements of `in` in some order
IsRearrangement(in, ks, xs) ==
  /\ Len(ks) = Len(in) /\ Len(xs) = Len(in)
  /\ \A j \in 1..Len(in) : xs[j] >= 0 /\ xs[j] < Len(in) /\ ks[j] = in[xs[j] + 1]
\* sorted; equal elements in input order
StablySorted(c, ks, xs) ==
  \A j \in 1..(Len(ks) - 1) : LET a == Rank(c, ks[j]) b == Rank(c, ks[j + 1]) IN a < b \/ (a = b /\ xs[j] < xs[j + 1])
Sorted(c, ks) == \A j \in 1..(Len(ks) - 1) : Rank(c, ks[j]) <= Rank(c, ks[j + 1])

\* the outcome of sorting `in`: strict order of (rank, position) already makes
\* the positions distinct
SortOutcome(stable, c, in, ks, xs) ==
  /\ IsRearrangement(in, ks, xs)
  /\ IF stable THEN StablySorted(c, ks, xs) ELSE Sorted(c, ks) /\ IsPerm(xs, Len(in))
=============================================================================
