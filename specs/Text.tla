-------------------------------- MODULE Text --------------------------------
(* Characters are their codes 0..255, texts sequences of them.              *)
EXTENDS Naturals, Integers, Sequences, SequencesExt, BigNat

(* ---- splitting ---- *)
Where(n, P(_)) == SelectSeq([j \in 1..n |-> j], P)
(* tokens: the maximal runs of characters that are not separators *)
TokStart(v, Sep) == Where(Len(v), LAMBDA j : v[j] \notin Sep /\ (j = 1 \/ v[j - 1] \in Sep))
TokEnd(v, Sep) == Where(Len(v), LAMBDA j : v[j] \notin Sep /\ (j = Len(v) \/ v[j + 1] \in Sep))
TokLens(v, Sep) == LET s == TokStart(v, Sep)  e == TokEnd(v, Sep) IN [j \in 1..Len(s) |-> e[j] - s[j] + 1]
TokText(v, Sep) == SelectSeq(v, LAMBDA c : c \notin Sep)
(* pieces: each ends with a flagged position, the last one at the end of the text *)
PieceLens(n, flag) == LET f == Where(n, LAMBDA j : flag[j] # 0)  m == Len(f) IN
  [j \in 1..(m + 1) |-> (IF j = m + 1 THEN n ELSE f[j]) - (IF j = 1 THEN 0 ELSE f[j - 1])]

(* ---- numbers ---- *)
(* an integer is <<sign, limbs...>>, sign 0 or 1 and limbs in base 10000, most significant first *)
Digit(x, d) == 48 + ((x \div d) % 10)
Four(x) == <<Digit(x, 1000), Digit(x, 100), Digit(x, 10), Digit(x, 1)>>
First4(x) == IF x >= 1000 THEN Four(x) ELSE IF x >= 100 THEN Tail(Four(x)) ELSE IF x >= 10 THEN SubSeq(Four(x), 3, 4) ELSE SubSeq(Four(x), 4, 4)
Decimal(z) == (IF z[1] = 1 THEN <<45>> ELSE <<>>) \o First4(z[2]) \o FlattenSeq([j \in 1..(Len(z) - 2) |-> Four(z[j + 2])])
(* the inverse: digits in groups of four from the right, after an optional sign *)
Nat4(t) == FoldLeft(LAMBDA a, c : a * 10 + (c - 48), 0, t)
IsDigit(c) == c \in 48..57
Trim(l) == IF Len(l) > 1 /\ l[1] = 0 THEN Tail(l) ELSE l
RECURSIVE Limbs(_)
Limbs(t) == IF Len(t) <= 4 THEN <<Nat4(t)>> ELSE Limbs(SubSeq(t, 1, Len(t) - 4)) \o <<Nat4(SubSeq(t, Len(t) - 3, Len(t)))>>
Parsed(t) == LET signed == t[1] \in {43, 45}  d == IF signed THEN Tail(t) ELSE t  l == TrimAll(Limbs(d)) IN
  <<IF t[1] = 45 /\ l # <<0>> THEN 1 ELSE 0>> \o l

(* ---- floating point ---- *)
(* A finite value is <<neg, class 0, K>> with limbs M: the number M * 2^K, where M has exactly
   as many bits as the type's significand (or is zero); class 1 is infinity and 2 not-a-number. *)
FirstOf(t, S, else) == IF \E j \in 1..Len(t) : t[j] \in S THEN CHOOSE j \in 1..Len(t) : t[j] \in S /\ \A h \in 1..(j - 1) : t[h] \notin S ELSE else
SmallInt(t) == LET v == Nat4(SelectSeq(t, IsDigit)) IN IF t[1] = 45 THEN 0 - v ELSE v
(* [space] [sign] digits with at most one point [e exponent], as digits * 10^exponent *)
Literal(t) ==
  LET e == FirstOf(t, {69, 101}, Len(t) + 1)
      m == SubSeq(t, 1, e - 1)
      point == FirstOf(m, {46}, Len(m))
  IN [neg |-> IF \E j \in 1..Len(m) : m[j] = 45 THEN 1 ELSE 0,
      dig |-> TrimAll(Limbs(SelectSeq(m, IsDigit))),
      exp |-> (IF e > Len(t) THEN 0 ELSE SmallInt(SubSeq(t, e + 1, Len(t)))) - (Len(m) - point)]
Pos(x) == IF x > 0 THEN x ELSE 0
(* d * 10^E and m * 2^K over a common scale, and the unit 2^K in that scale *)
ScaledDec(d, E, K) == TimesTwoTo(TimesTenTo(d, Pos(E)), Pos(0 - K))
ScaledBin(m, E, K) == TimesTenTo(TimesTwoTo(m, Pos(K)), Pos(0 - E))
(* m * 2^K, with m of `bits' bits, is the value of the type nearest to d * 10^E; a tie goes to the even m *)
Nearest(d, E, m, K, bits) ==
  IF d = <<0>> \/ m = <<0>> THEN d = <<0>> /\ m = <<0>>
  ELSE LET D == ScaledDec(d, E, K)  B == ScaledBin(m, E, K)  U == ScaledBin(<<1>>, E, K)
           even == m[Len(m)] % 2 = 0
           low == m = TimesTwoTo(<<1>>, bits - 1)         \* values below are twice as dense
           D2 == Times(D, 2)  B2 == Times(B, 2)
       IN /\ Leq(TimesTwoTo(<<1>>, bits - 1), m)
          /\ Leq(D2, Plus(B2, U)) /\ (even \/ D2 # Plus(B2, U))
          /\ IF low THEN Leq(Times(B, 4), Plus(Times(D, 4), U))
             ELSE Leq(B2, Plus(D2, U)) /\ (even \/ B2 # Plus(D2, U))
(* scientific notation with twelve digits: [-]D.DDDDDDDDDDDe(+|-)XX[X], the decimal nearest to m * 2^K *)
Scientific(t, neg, m, K) ==
  LET s == IF neg = 1 THEN Tail(t) ELSE t
      l == Literal(t)
      D == ScaledDec(l.dig, l.exp, K)  B == ScaledBin(m, l.exp, K)  U == ScaledDec(<<1>>, l.exp, K)
  IN /\ neg = 1 => t[1] = 45
     /\ Len(s) \in {17, 18} /\ s[2] = 46 /\ s[14] = 101 /\ s[15] \in {43, 45}
     /\ \A j \in (1..Len(s)) \ {2, 14, 15} : IsDigit(s[j])
     /\ Len(s) = 18 => s[16] # 48
     /\ IF m = <<0>> THEN l.dig = <<0>> /\ l.exp = 0 - 11
        ELSE /\ s[1] # 48
             /\ Leq(Times(D, 2), Plus(Times(B, 2), U)) /\ Leq(Times(B, 2), Plus(Times(D, 2), U))

(* ---- lists and pairs ---- *)
RECURSIVE Joined(_)
Joined(ts) == IF ts = <<>> THEN <<>> ELSE IF Len(ts) = 1 THEN ts[1] ELSE ts[1] \o <<44, 32>> \o Joined(Tail(ts))
List(ts) == <<91>> \o Joined(ts) \o <<93>>
Pair(a, b) == <<40>> \o a \o <<44, 32>> \o b \o <<41>>

(* ---- files ---- *)
Least(a, b) == IF a < b THEN a ELSE b
(* the bytes [start, end) of the file; end 0 or past the end means the end of the file *)
Part(v, start, end) == LET e == IF end = 0 THEN Len(v) ELSE Least(end, Len(v)) IN SubSeq(v, start + 1, e)
=============================================================================
