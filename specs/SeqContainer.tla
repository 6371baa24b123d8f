---------------------------- MODULE SeqContainer ----------------------------
(* The sequence containers a[1], a[2], a[3] of elements (integers stand for *)
(* their values; 0 is a default-constructed element) and the operations on  *)
(* them.  After(s, op, char) is the state an operation leads to and         *)
(* Ret(s, op, P) the value it returns, both unique: whatever storage,        *)
(* capacity, allocator or element type the implementation uses.             *)
EXTENDS Naturals, Integers, Sequences
(* op = [c: code, x, y: containers, p, q: positions, n: count, k: value] *)
Many(k, n, char) == [j \in 1..n |-> IF char THEN ((k + j) - 1) % 90 ELSE (k + j) - 1]
Copies(n, e) == [j \in 1..n |-> e]
Insert(v, p, w) == SubSeq(v, 1, p) \o w \o SubSeq(v, p + 1, Len(v))
Erase(v, p, q) == SubSeq(v, 1, p) \o SubSeq(v, q + 1, Len(v))
Resize(v, n, e) == IF n <= Len(v) THEN SubSeq(v, 1, n) ELSE v \o Copies(n - Len(v), e)

Digits(a) == CHOOSE d \in 1..7 : a < 10^d /\ (d = 1 \/ a >= 10^(d - 1))
StrLess(a, b) == LET na == (a % 40) + 1  nb == (b % 40) + 1  A == a * 10^(7 - Digits(a))  B == b * 10^(7 - Digits(b)) IN
  IF a = 0 \/ b = 0 THEN a = 0 /\ b # 0
  ELSE IF na # nb THEN na < nb ELSE A < B \/ (A = B /\ Digits(a) < Digits(b))
(* element order: that of the integers, except for strings *)
ELess(str, a, b) == IF str THEN StrLess(a, b) ELSE a < b
LexLess(str, v, w) ==
  \/ Len(v) < Len(w) /\ SubSeq(w, 1, Len(v)) = v
  \/ \E j \in 1..Len(v) : j <= Len(w) /\ v[j] # w[j] /\ ELess(str, v[j], w[j]) /\ \A h \in 1..(j - 1) : v[h] = w[h]

After(s, op, char) ==
  LET c == op.c  x == op.x  y == op.y  p == op.p  q == op.q  n == op.n
      X == s[x]  Y == s[y]  many == Many(op.k, n, char)  three == Many(op.k, 3, char)
      toX(v) == [s EXCEPT ![x] = v]
      toY(v) == [s EXCEPT ![y] = v]
      both(v, w) == [s EXCEPT ![x] = v, ![y] = w]
  IN CASE c = 0 -> toX(Copies(n, 0))                            \* construction
       [] c \in {1, 32} -> toX(Copies(n, op.k))
       [] c \in {2, 3, 4, 33, 51} -> toX(many)
       [] c \in {5, 34, 35} -> toX(three)
       [] c \in {6, 50} -> toX(Y)                               \* copy
       [] c = 7 -> both(Y, <<>>)                                \* move
       [] c = 8 -> IF x = y THEN s ELSE both(Y, X)              \* swap
       [] c \in {9, 10, 12} -> toX(Append(X, op.k))
       [] c = 11 -> toX(Append(X, X[q + 1]))                    \* an element of the container itself
       [] c \in {13, 23} -> toX(Insert(X, p, <<op.k>>))
       [] c = 14 -> toX(Insert(X, p, <<X[q + 1]>>))
       [] c = 15 -> toX(Insert(X, p, Copies(n, op.k)))
       [] c = 16 -> toX(Insert(X, p, Copies(n, X[q + 1])))
       [] c \in {17, 18, 19} -> toX(Insert(X, p, many))
       [] c = 20 -> toX(Insert(X, p, three))
       [] c = 21 -> both(Insert(X, p, Y), <<>>)
       [] c = 22 -> toX(Insert(X, p, Y))
       [] c = 24 -> toX(Erase(X, p, p + 1))
       [] c = 25 -> toX(Erase(X, p, q))
       [] c = 26 -> toX(SubSeq(X, 1, Len(X) - 1))
       [] c = 27 -> toX(Resize(X, p, 0))
       [] c = 28 -> toX(Resize(X, p, op.k))
       [] c = 29 -> toX(Resize(X, p, X[q + 1]))
       [] c = 31 -> toX(<<>>)
       [] c = 36 -> toX(X \o Copies(n, op.k))
       [] c = 37 -> toX(X \o Copies(n, X[q + 1]))
       [] c = 38 -> toX(X \o many)
       [] c = 39 -> toX(X \o Y)
       [] c = 40 -> both(X \o Y, <<>>)
       [] c = 41 -> both(SubSeq(X, 1, p), SubSeq(X, p + 1, Len(X)))   \* pop_tail
       [] c = 42 -> toY(SubSeq(X, p + 1, q))                     \* subseq
       [] c \in {46, 47} -> toY(X)
       [] c \in {30, 43, 44, 45, 48, 49, 52, 53} -> s             \* reserve, observers, there and back
       [] OTHER -> <<>>
Ret(s, op, str) ==
  LET c == op.c  p == op.p  q == op.q  X == s[op.x]  Y == s[op.y] IN
  CASE c \in {9, 10, 11, 12, 36, 37, 38, 39, 40} -> Len(X)
    [] c \in (13..25) -> p
    [] c = 30 -> 1
    [] c = 43 -> (IF X = Y THEN 1 ELSE 2) + (IF LexLess(str, X, Y) THEN 4 ELSE 0) + (IF LexLess(str, Y, X) THEN 8 ELSE 0)
    [] c = 44 -> IF q >= 0 /\ q < Len(X) THEN X[q + 1] ELSE -1     \* at() out of range reports an error
    [] c = 45 -> Len(X)
    [] c = 49 -> ((p % 1000) * 1000000) + (((q - p) % 1000) * 1000) + ((Len(X) - q) % 1000)
    [] OTHER -> 0
=============================================================================
