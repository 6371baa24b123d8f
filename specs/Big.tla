--------------------------------- MODULE Big ---------------------------------
(* Results on millions of elements in closed form.  Element i (0 <= i < n)   *)
(* has key (a*i + b) mod m with gcd(a, m) = 1, so the elements of key k are  *)
(* i0, i0 + m, i0 + 2m, ...: one arithmetic run.  Results are recorded as     *)
(* the maximal runs <<starts, steps, lengths>> of their elements.             *)
EXTENDS Integers, Sequences, TLC
Inverse(a, m) == CHOOSE x \in 0..m-1 : (a * x) % m = 1 % m
First(inv, b, m, k) == (inv * ((k - b) % m)) % m
Size(n, m, f) == IF f < n THEN ((n - 1 - f) \div m) + 1 ELSE 0
\* the keys 0..m-1, each with its elements in input order (every key occurs twice at least)
Firsts(a, b, m) == LET inv == TLCEval(Inverse(a, m)) IN TLCEval([k \in 1..m |-> First(inv, b, m, k - 1)])
Sizes(n, m, fs) == TLCEval([k \in 1..m |-> Size(n, m, fs[k])])
Const(m, c) == [k \in 1..m |-> c]
SortedKeys(m, z, s, d, l) == s = [k \in 1..m |-> k - 1] /\ d = Const(m, 0) /\ l = z
SortedPos(m, fs, z, s, d, l) == s = fs /\ d = Const(m, m) /\ l = z
\* a sequence whose elements are those of the function val at 1..n, given in runs
RECURSIVE Decodes(_, _, _, _, _, _)
Decodes(s, d, l, i, at, v) ==     \* v[at..] is runs i..
  IF i > Len(s) THEN at = Len(v) + 1
  ELSE /\ at + l[i] - 1 <= Len(v) /\ \A j \in 0..l[i]-1 : v[at + j] = s[i] + j * d[i]
       /\ Decodes(s, d, l, i + 1, at + l[i], v)
One(s, d, l, x, e, n) == s = <<x>> /\ d = <<e>> /\ l = <<n>>
==============================================================================
