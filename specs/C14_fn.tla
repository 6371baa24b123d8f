------------------------------- MODULE C14_fn -------------------------------
(* merge, rank, kth_smallest, is_sorted, is_sorted_until over an order given *)
(* by Rank (module Sort).                                                    *)
EXTENDS Sort, FnDriver

\* first position (0-based) whose element is smaller than its predecessor, or the length
Until(c, in) == LET D == {j \in 1..(Len(in) - 1) : Rank(c, in[j + 1]) < Rank(c, in[j])}
                IN  IF D = {} THEN Len(in) ELSE CHOOSE j \in D : \A i \in D : j <= i
HasRank(c, in, key, k) ==
  LET x == Rank(c, key) IN
  /\ Cardinality({j \in 1..Len(in) : Rank(c, in[j]) < x}) <= k
  /\ k < Cardinality({j \in 1..Len(in) : Rank(c, in[j]) <= x})

Ok(r) ==
  LET c == r.p[1]  in == r.i[1]  IN
  CASE r.f = "merge" -> /\ Sorted(c, in) /\ Sorted(c, r.i[2])
                        /\ LET u == in \o r.i[2] IN IsRearrangement(u, r.o[1], r.o[2]) /\ StablySorted(c, r.o[1], r.o[2])
                        /\ r.o[3] = <<1, 0>>
    [] r.f = "rank" -> LET rk == r.o[1]  pos == r.o[2] IN
                        /\ Len(rk) = Len(in) /\ Len(pos) = Len(in)
                        /\ \A j \in 1..Len(in) : pos[j] >= 0 /\ rk[pos[j] + 1] = j - 1
                        /\ \A j \in 1..(Len(in) - 1) : LET a == pos[j]  b == pos[j + 1] IN
                              \/ Rank(c, in[a + 1]) < Rank(c, in[b + 1])
                              \/ Rank(c, in[a + 1]) = Rank(c, in[b + 1]) /\ a < b
    [] r.f = "is_sorted" -> r.o[1][1] = (IF Until(c, in) = Len(in) THEN 1 ELSE 0)
    [] r.f = "is_sorted_until" -> r.o[1][1] = Until(c, in)
    [] r.f = "kth_smallest" -> LET q == r.o[1][1] IN q >= 0 /\ q < Len(in) /\ HasRank(c, in, in[q + 1], r.p[2])
    [] r.f = "kth_smallest_copy" -> LET q == r.o[1][2] IN q >= 0 /\ q < Len(in) /\ in[q + 1] = r.o[1][1] /\ HasRank(c, in, r.o[1][1], r.p[2])
    [] OTHER -> FALSE
=============================================================================
