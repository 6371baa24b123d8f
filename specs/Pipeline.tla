------------------------------ MODULE Pipeline ------------------------------
(* What a pipeline of delayed operations denotes: the sequence that the      *)
(* operations applied one after the other, eagerly, produce.  Elements are   *)
(* integers; a pair or tuple stands for the integer Mix of its components.   *)
EXTENDS Integers, Sequences, SequencesExt
PFun(k) == (3 * k + 1) % 100003
PPred(p, k) == CASE p = 0 -> k % 2 = 0 [] p = 1 -> TRUE [] p = 2 -> FALSE [] p = 3 -> k % 3 = 1 [] p = 4 -> k < 2 [] OTHER -> k % 97 = 5
Mix(a, b) == (2 * a + b + 7) % 100003
Latest(a, b) == IF b = 0 THEN a ELSE b
Add(a, b) == (a + b) % 10007
Least(a, b) == IF a < b THEN a ELSE b
Map(s, F(_)) == [j \in 1..Len(s) |-> F(s[j])]
\* all prefix combinations of s from 0, Len(s) + 1 of them
Running(s, F(_, _)) == FoldLeft(LAMBDA acc, x : Append(acc, F(acc[Len(acc)], x)), <<0>>, s)
Excl(s, F(_, _)) == SubSeq(Running(s, F), 1, Len(s))
Incl(s, F(_, _)) == SubSeq(Running(s, F), 2, Len(s) + 1)
ZipBy(a, b, F(_, _)) == [j \in 1..Least(Len(a), Len(b)) |-> F(a[j], b[j])]
Concat(ss) == FoldLeft(LAMBDA acc, t : acc \o t, <<>>, ss)
\* d.b the second operand of zips, d.flat and d.off the table of inner sequences, d.q the parameter
Row(d, k) == SubSeq(d.flat, d.off[k + 1] + 1, d.off[k + 2])
Apply(op, s, d) ==
  CASE op \in {0, 11} -> IF op = 0 THEN Map(s, PFun) ELSE Map(s, PFun)
    [] op = 1 -> SelectSeq(s, LAMBDA x : PPred(d.q, x))
    [] op = 2 -> Map(SelectSeq(s, LAMBDA x : PPred(d.q, x)), PFun)
    [] op = 3 -> Excl(s, Latest)
    [] op = 4 -> Incl(s, Add)
    [] op = 5 -> ZipBy(s, d.b, LAMBDA x, y : (2 * x + y) % 100003)
    [] op = 6 -> [j \in 1..Len(s) |-> Mix(j - 1, s[j])]
    [] op = 7 -> Concat(Map(s, LAMBDA x : [j \in 1..(x % 3) |-> x + j - 1]))
    [] op = 8 -> Concat(Map(s, LAMBDA x : Row(d, x % 8)))
    [] op = 9 -> ZipBy(s, d.b, Mix)
    [] op = 10 -> ZipBy(s, SelectSeq(d.b, LAMBDA x : x % 5 # 0), Mix)
    [] op = 12 -> Concat(SelectSeq(Map(s, LAMBDA x : Row(d, x % 8)), LAMBDA t : Len(t) # 2))
    [] op = 13 -> Incl(s, Latest)
    [] op = 14 -> s \o s \o s
RECURSIVE Denote(_, _, _)
Denote(ops, s, d) == IF ops = <<>> THEN s ELSE Denote(Tail(ops), Apply(Head(ops), s, d), d)
\* the result of a consumer of a view that denotes s
Consumed(c, s, out) ==
  CASE c \in 0..3 -> out = s
    [] c = 4 -> out = <<FoldLeft(Latest, 0, s)>>
    [] c = 5 -> out = <<FoldLeft(Add, 0, s)>>
    [] OTHER -> out = SortSeq(s, LAMBDA x, y : x < y)    \* every element visited once
=============================================================================
