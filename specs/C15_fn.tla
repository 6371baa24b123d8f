------------------------------- MODULE C15_fn -------------------------------
(* Integer and counting sorts.  i = <<keys>> (order-preserving codes of the  *)
(* machine keys for the integer sorts, the keys themselves for the counting  *)
(* sorts), o = <<keys, positions, <<input untouched, moved-from reads>>,     *)
(* offsets, counts>>, p = <<number of buckets>> for the counting sorts.      *)
EXTENDS Sort, FnDriver

\* off are the offsets at which the nb buckets of the sorted keys ks start
Offsets(nb, ks, off) ==
  /\ Len(off) = nb + 1 /\ off[1] = 0 /\ off[nb + 1] = Len(ks)
  /\ \A b \in 1..nb : off[b] <= off[b + 1]
  /\ \A b \in 1..nb : \A j \in (off[b] + 1)..off[b + 1] : ks[j] = b - 1
Counts(nb, off, cnt) == Len(cnt) = nb /\ \A b \in 1..nb : off[b + 1] = off[b] + cnt[b]

Sorts == {"integer_sort", "integer_sort_inplace", "stable_integer_sort", "stable_integer_sort_inplace"}
CountingSorts == {"counting_sort", "counting_sort_inplace", "counting_sort_by_keys", "integer_sort_with_counts"}
Ok(r) ==
  /\ r.f \in Sorts \cup CountingSorts
  /\ SortOutcome(TRUE, 0, r.i[1], r.o[1], r.o[2])
  /\ r.o[3] = <<1, 0>>
  /\ r.f \in CountingSorts => Offsets(r.p[1], r.o[1], r.o[4])
  /\ r.f = "integer_sort_with_counts" => Counts(r.p[1], r.o[4], r.o[5])
=============================================================================
