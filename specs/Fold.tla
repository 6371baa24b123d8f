-------------------------------- MODULE Fold --------------------------------
(* Reductions and prefix sums over the monoids used by the harness.  An      *)
(* element is a tuple of integers (one or two).  Operators:                  *)
(*  0 sum 1 max 2 min 3 xor 4 or 5 and 6 interval of positions 7 affine map  *)
(*  8 product mod 10007 9 logical or 10 logical and         *)
EXTENDS Integers, Sequences, SequencesExt, Bitwise
MinInt == -2147483647 - 1
MaxInt == 2147483647
Max2(a, b) == IF a < b THEN b ELSE a
Min2(a, b) == IF b < a THEN b ELSE a
Combine(op, x, y) ==
  CASE op = 0 -> <<x[1] + y[1]>>
    [] op = 1 -> <<Max2(x[1], y[1])>>
    [] op = 2 -> <<Min2(x[1], y[1])>>
    [] op = 3 -> <<x[1] ^^ y[1]>>
    [] op = 4 -> <<x[1] | y[1]>>
    [] op = 5 -> <<x[1] & y[1]>>
    [] op = 6 -> IF x[1] = -1 THEN y ELSE IF y[1] = -1 THEN x
                 ELSE IF x[1] = -2 \/ y[1] = -2 \/ x[2] # y[1] THEN <<-2, -2>> ELSE <<x[1], y[2]>>
    [] op = 7 -> <<(x[1] * y[1]) % 10007, (y[1] * x[2] + y[2]) % 10007>>
    [] op = 8 -> <<(x[1] * y[1]) % 10007>>
    [] op = 9 -> <<Max2(x[1], y[1])>>
    [] op = 10 -> <<Min2(x[1], y[1])>>
Identity(op) ==
  CASE op \in {0, 3, 4, 9} -> <<0>> [] op = 1 -> <<MinInt>> [] op = 2 -> <<MaxInt>> [] op = 5 -> <<-1>>
    [] op = 6 -> <<-1, -1>> [] op = 7 -> <<1, 0>> [] op \in {8, 10} -> <<1>>

\* j-th element of the arrays a (one or two of them)
At(a, j) == IF Len(a) = 1 THEN <<a[1][j]>> ELSE <<a[1][j], a[2][j]>>
\* input elements: the interval operator has implicit inputs [j-1, j)
In(op, a, j) == IF op = 6 THEN <<j - 1, j>> ELSE At(a, j)
FoldAll(op, a, n) ==
  IF op = 6 THEN (IF n = 0 THEN <<-1, -1>> ELSE <<0, n>>)
  ELSE FoldLeft(LAMBDA acc, j : Combine(op, acc, In(op, a, j)), Identity(op), [j \in 1..n |-> j])
\* o are the exclusive prefix combinations of a, and t the total
Exclusive(op, a, n, o, t) ==
  /\ \A q \in 1..Len(o) : Len(o[q]) = n
  /\ n = 0 => t = Identity(op)
  /\ n > 0 => /\ At(o, 1) = Identity(op)
              /\ \A j \in 1..(n - 1) : At(o, j + 1) = Combine(op, At(o, j), In(op, a, j))
              /\ t = Combine(op, At(o, n), In(op, a, n))
Inclusive(op, a, n, o) ==
  /\ \A q \in 1..Len(o) : Len(o[q]) = n
  /\ n > 0 => At(o, 1) = In(op, a, 1)
  /\ \A j \in 1..(n - 1) : At(o, j + 1) = Combine(op, At(o, j), In(op, a, j + 1))
=============================================================================
