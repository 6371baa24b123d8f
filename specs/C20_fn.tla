------------------------------- MODULE C20_fn -------------------------------
EXTENDS Search, FnDriver
Ok(r) ==
  LET o == r.o[1]  p == r.p[1]  n == r.p[2]  v == r.i[1] IN
  CASE r.f = "find_if" -> First(n, o[1], LAMBDA j : Up(p, v[j + 1]))
    [] r.f = "find_if_not" -> First(n, o[1], LAMBDA j : ~Up(p, v[j + 1]))
    [] r.f = "find" -> First(n, o[1], LAMBDA j : v[j + 1] = p)
    [] r.f = "count" -> o[1] = Count(n, LAMBDA j : v[j + 1] = p)
    [] r.f = "counts" -> LET c == Count(n, LAMBDA j : Up(p, v[j + 1])) IN
         /\ o[1] = c /\ o[2] = Bool(c = n) /\ o[3] = Bool(c > 0) /\ o[4] = Bool(c = 0)
         /\ o[5] = Bool(\A j \in 1..n : Up(p, v[j]) <=> j <= c)
    [] r.f = "find_first_of" -> First(n, o[1], LAMBDA j : \E k \in 1..Len(r.i[2]) : Rel(p, v[j + 1], r.i[2][k]))
    [] r.f = "adjacent_find" -> \/ First(n - 1, o[1], LAMBDA j : Rel(p, v[j + 1], v[j + 2])) /\ o[1] < n - 1
                                \/ o[1] = n /\ \A j \in 1..(n - 1) : ~Rel(p, v[j], v[j + 1])
    [] r.f = "mismatch" -> o[1] = o[2] /\ First(Least(n, r.p[3]), o[1], LAMBDA j : ~Rel(p, v[j + 1], r.i[2][j + 1]))
    [] r.f = "equal" -> o[1] = Bool(n = r.p[3] /\ \A j \in 1..n : Rel(p, v[j], r.i[2][j]))
    [] r.f = "search" -> \/ o[1] < n /\ First(n, o[1], LAMBDA j : MatchAt(p, v, r.i[2], j))
                         \/ o[1] = n /\ \A j \in 0..(n - 1) : ~MatchAt(p, v, r.i[2], j)
    [] r.f = "find_end" -> IF r.i[2] = <<>> THEN o[1] = n ELSE LastOne(n, o[1], n, LAMBDA j : MatchAt(p, v, r.i[2], j))
    [] r.f = "lex" -> o[1] = Bool(LexLess(p, v, r.i[2]))
    [] r.f = "minmax" -> /\ FirstMin(v, o[1], LAMBDA a, b : Less(p, a, b)) /\ o[3] = o[1]
                         /\ FirstMin(v, o[2], LAMBDA a, b : Less(p, b, a)) /\ o[4] = o[2]
    [] OTHER -> FALSE
=============================================================================
