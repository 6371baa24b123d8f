---------------------------- MODULE Determinism ----------------------------
(* A call is a function of its arguments: whatever the number of workers,   *)
(* the schedule, what else runs and how often it was called before.         *)
EXTENDS Naturals, Sequences, FiniteSets
(* results of the runs of one call: run c had the result at index which[c]  *)
Determined(which) == \A c \in 1..Len(which) : which[c] = which[1]
Permutation(v, n) == Len(v) = n /\ {v[j] : j \in 1..n} = 0..(n - 1)
(* a generator's copies and re-seeded generators continue alike: the stream *)
(* is written in groups of three equal values of three words each           *)
Alike(v) == \A j \in 0..((Len(v) \div 9) - 1) :
  SubSeq(v, 9 * j + 1, 9 * j + 3) = SubSeq(v, 9 * j + 4, 9 * j + 6) /\ SubSeq(v, 9 * j + 1, 9 * j + 3) = SubSeq(v, 9 * j + 7, 9 * j + 9)
=============================================================================
