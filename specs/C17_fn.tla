------------------------------- MODULE C17_fn -------------------------------
\* o[1] = <<inputs as they must be and nothing read after being moved from, other results...>>
EXTENDS Bulk, FnDriver
Min2(a, b) == IF a < b THEN a ELSE b
Ok(r) ==
  LET o == r.o  n == r.p[Len(r.p)]  p == r.p[1]  v == r.i[1] IN
  /\ o[1][1] = 1
  /\ CASE r.f = "tabulate" -> Len(o[2]) = n /\ Once(o[3], n) /\ \A j \in 1..n : o[2][j] = Fun(j - 1)
       [] r.f = "iota" -> o[2] = [j \in 1..n |-> j - 1]
       [] r.f = "map" -> Mapped(v, o[2]) /\ Once(o[3], n)
       [] r.f = "for_each" -> Once(o[2], n)
       [] r.f = "filter" -> Elements(v, Picked(n, LAMBDA j : Pred(p, v[j])), o[2], o[3])
       [] r.f = "filter_into" -> o[1][2] = Len(o[2]) /\ Elements(v, Picked(n, LAMBDA j : Pred(p, v[j])), o[2], o[3])
       [] r.f = "remove_if" -> Elements(v, Picked(n, LAMBDA j : ~Pred(p, v[j])), o[2], o[3])
       [] r.f = "remove" -> Elements(v, Picked(n, LAMBDA j : v[j] # p), o[2], o[3])
       [] r.f = "unique" -> Elements(v, Picked(n, LAMBDA j : j = 1 \/ ~Same(p, v[j - 1], v[j])), o[2], o[3])
       [] r.f = "pack_index" -> LET s == Picked(n, LAMBDA j : Pred(p, v[j])) IN Len(o[2]) = Len(s) /\ \A j \in 1..Len(s) : o[2][j] = s[j] - 1
       [] r.f = "map_maybe" -> /\ Once(o[3], n)
                               /\ LET s == Picked(n, LAMBDA j : Pred(p, v[j])) IN Len(o[2]) = Len(s) /\ \A j \in 1..Len(s) : o[2][j] = Fun(v[s[j]])
       [] r.f = "reverse" -> Elements(v, [j \in 1..n |-> n + 1 - j], o[2], o[3])
       [] r.f = "rotate" -> Elements(v, [j \in 1..n |-> ((j - 1 + p) % n) + 1], o[2], o[3])
       [] r.f = "append" -> LET w == r.i[2] IN /\ o[2] = v \o w
                                               /\ o[3] = [j \in 1..(Len(v) + Len(w)) |-> IF j <= Len(v) THEN j - 1 ELSE 5000000 + j - 1 - Len(v)]
       [] r.f = "copy" -> /\ Len(o[2]) = n /\ Elements(v, Ids(p), SubSeq(o[2], 1, p), SubSeq(o[3], 1, p))
                          /\ \A j \in (p + 1)..n : o[2][j] = -5 /\ o[3][j] = -6
       [] r.f = "zip" -> LET m == Min2(n, Len(r.i[2])) IN o[2] = SubSeq(v, 1, m) /\ o[3] = SubSeq(r.i[2], 1, m)
       [] r.f = "flatten" -> Elements(r.i[2], Ids(Len(r.i[2])), o[2], o[3])
       [] r.f = "split_two" -> LET a == Picked(n, LAMBDA j : ~Pred(p, v[j]))  b == Picked(n, LAMBDA j : Pred(p, v[j]))
                               IN o[1][2] = Len(a) /\ Elements(v, a \o b, o[2], o[3])
       [] r.f = "split_three" -> LET s(q) == Picked(n, LAMBDA j : v[j] % 3 = q)
                                 IN o[1][2] = Len(s(0)) /\ o[1][3] = Len(s(1)) /\ Elements(v, s(0) \o s(1) \o s(2), o[2], o[3])
       [] OTHER -> FALSE
=============================================================================
