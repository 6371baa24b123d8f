------------------------------- MODULE BigNat -------------------------------
(* Natural numbers of any size: limbs in base 10000, most significant first,
   without leading zeros; <<0>> is zero.                                     *)
EXTENDS Naturals, Sequences, SequencesExt

RECURSIVE TrimAll(_)
TrimAll(l) == IF Len(l) > 1 /\ l[1] = 0 THEN TrimAll(Tail(l)) ELSE l
(* a * k for k < 10000 *)
Times(a, k) ==
  LET f == FoldRight(LAMBDA d, acc : LET t == d * k + acc[1] IN <<t \div 10000, <<t % 10000>> \o acc[2]>>, a, <<0, <<>>>>)
  IN TrimAll(<<f[1]>> \o f[2])
Zeros(n) == [j \in 1..n |-> 0]
RECURSIVE TimesTwoTo(_, _)
TimesTwoTo(a, n) == IF n = 0 THEN a ELSE IF n >= 13 THEN TimesTwoTo(Times(a, 8192), n - 13) ELSE Times(a, 2 ^ n)
TimesTenTo(a, n) == TrimAll(Times(a, 10 ^ (n % 4)) \o Zeros(n \div 4))
Plus(a, b) ==
  LET m == IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)
      x == Zeros(m - Len(a)) \o a
      y == Zeros(m - Len(b)) \o b
      f == FoldRight(LAMBDA j, acc : LET t == x[j] + y[j] + acc[1] IN <<t \div 10000, <<t % 10000>> \o acc[2]>>,
                     [j \in 1..m |-> j], <<0, <<>>>>)
  IN TrimAll(<<f[1]>> \o f[2])
Leq(a, b) ==
  \/ Len(a) < Len(b)
  \/ Len(a) = Len(b) /\ (a = b \/ LET d == CHOOSE j \in 1..Len(a) : a[j] # b[j] /\ \A h \in 1..(j - 1) : a[h] = b[h] IN a[d] < b[d])
=============================================================================
