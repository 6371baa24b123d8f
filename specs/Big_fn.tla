------------------------------- MODULE Big_fn -------------------------------
(* p = <<n, a, b, m, ...>>, see Big.tla *)
EXTENDS Big, FnDriver
Ok(r) ==
  LET n == r.p[1] a == r.p[2] b == r.p[3] m == r.p[4] o == r.o IN
  CASE r.f \in {"stable", "stable_offsets"} ->
         LET fs == Firsts(a, b, m) z == Sizes(n, m, fs) IN
         /\ SortedKeys(m, z, o[1], o[2], o[3]) /\ SortedPos(m, fs, z, o[4], o[5], o[6])
         /\ r.f = "stable_offsets" => /\ Len(o[7]) = m + 1 /\ o[7][1] = 0
                                      /\ \A k \in 1..m : o[7][k + 1] - o[7][k] = z[k]
    [] r.f = "groups" -> LET fs == Firsts(a, b, m) z == Sizes(n, m, fs) IN
         Decodes(o[1], o[2], o[3], 1, 1, z) /\ SortedPos(m, fs, z, o[4], o[5], o[6])
    [] r.f = "sizes" -> LET fs == Firsts(a, b, m) IN Decodes(o[1], o[2], o[3], 1, 1, Sizes(n, m, fs))
    [] r.f = "keysizes" -> LET fs == Firsts(a, b, m) IN One(o[1], o[2], o[3], 0, 1, m) /\ Decodes(o[4], o[5], o[6], 1, 1, Sizes(n, m, fs))
    [] r.f = "keys" -> One(o[1], o[2], o[3], 0, 1, m)
    [] r.f = "lasts" -> LET fs == Firsts(a, b, m) z == Sizes(n, m, fs) IN o[1] = [k \in 1..m |-> fs[k] + (z[k] - 1) * m]
    [] r.f = "count" -> One(o[1], o[2], o[3], 0, 1, n)
    [] r.f = "count1" -> One(o[1], o[2], o[3], 1, 1, n)
    [] r.f = "count2" -> o = << <<0, 0>>, <<1, 1>>, <<n, n>> >>
    [] r.f = "count_total" -> One(o[1], o[2], o[3], 0, 1, n) /\ o[4] = <<n>>
    [] r.f = "value" -> o[1] = <<r.p[5]>>
    [] r.f = "class" -> One(o[1], o[2], o[3], b, m, Size(n, m, b))
    [] r.f = "class_size" -> o[1] = <<Size(n, m, b)>>
    [] r.f = "reverse" -> One(o[1], o[2], o[3], n - 1, -1, n)
    [] r.f = "rotate" -> o = << <<r.p[5], 0>>, <<1, 1>>, <<n - r.p[5], r.p[5]>> >>
    [] r.f = "flatten" -> /\ o[1] = [k \in 1..m |-> k - 1] /\ o[2] = Const(m, 1)
                          /\ o[3] = [k \in 1..m |-> r.p[5] + ((k - 1) % 3)]
    [] OTHER -> FALSE
=============================================================================
