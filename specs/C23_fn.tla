------------------------------- MODULE C23_fn -------------------------------
EXTENDS Text, FnDriver
(* slices of a flattened array of limb sequences: lengths in l *)
Cut(flat, l) == LET pos == [j \in 0..Len(l) |-> FoldLeft(LAMBDA a, b : a + b, 0, SubSeq(l, 1, j))] IN
  [j \in 1..Len(l) |-> SubSeq(flat, pos[j - 1] + 1, pos[j])]
Texts(r) == [j \in 1..Len(r.i[2]) |-> Cut(r.i[1], r.i[2])[j]]
Ok(r) ==
  LET v == r.i[1]  p == r.p IN
  CASE r.f = "tokens" -> LET Sep == {r.i[2][j] : j \in 1..Len(r.i[2])} IN
         r.o[1] = TokLens(v, Sep) /\ (p[2] = 0 => r.o[2] = TokText(v, Sep))
    [] r.f = "pieces" -> r.o[1] = PieceLens(Len(v), r.i[2]) /\ (p[2] = 0 => r.o[2] = v)
    [] r.f = "format" -> r.o[1] = Decimal(v)
    [] r.f = "parse" -> r.o[1] = Parsed(v)
    [] r.f = "float" -> LET l == Literal(v) IN
         r.o[2][1] = l.neg /\ r.o[2][2] = 0 /\ Nearest(l.dig, l.exp, Tail(r.o[1]), r.o[2][3], p[1])
    [] r.f = "special" -> r.o[2][1] = p[2] /\ r.o[2][2] = p[3]
    [] r.f = "fmtfloat" -> Scientific(r.o[1], p[1], Tail(v), p[2])
    [] r.f = "text" -> r.o[1] = v
    [] r.f = "list" -> r.o[1] = List([j \in 1..Len(r.i[2]) |-> Decimal(Cut(v, r.i[2])[j])])
    [] r.f = "texts" -> r.o[1] = List(Cut(v, r.i[2]))
    [] r.f = "pair" -> r.o[1] = Pair(Decimal(v), r.i[2])
    [] r.f = "pairs" -> r.o[1] = List([j \in 1..(Len(r.i[2]) \div 2) |-> LET c == Cut(v, r.i[2]) IN Pair(Decimal(c[2 * j - 1]), Decimal(c[2 * j]))])
    [] r.f = "lists" -> LET c == Cut(v, r.i[2])  g == Cut([j \in 1..Len(c) |-> j], r.i[3]) IN
         r.o[1] = List([j \in 1..Len(g) |-> List([h \in 1..Len(g[j]) |-> Decimal(c[g[j][h]])])])
    [] r.f = "read" -> r.o[1] = Part(v, p[2], p[3]) \o (IF p[4] = 1 THEN <<0>> ELSE <<>>)
    [] r.f = "mapped" -> r.o[1] = v /\ r.o[2] = <<Len(v), IF Len(v) = 0 THEN 1 ELSE 0, 1>>
    [] OTHER -> FALSE
=============================================================================
