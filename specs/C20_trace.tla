---- MODULE C20_trace ----
(* One search in a range of zeroes with a few other elements or with a run of equal ones, under a controlled schedule.
   State: the elements put so far (position -> value), and the call that is pending.     *)
EXTENDS Search, FiniteSets, TraceDriver
SInit(p) == {[put |-> {}, fill |-> <<0, 0, 0>>, call |-> <<>>, n |-> p[1], m |-> p[2], done |-> FALSE]}
Elem(s, base, j) == IF \E q \in s.put : q[1] = base + j THEN (CHOOSE q \in s.put : q[1] = base + j)[2]
                    ELSE IF base + j >= s.fill[1] /\ base + j < s.fill[2] THEN s.fill[3] ELSE 0
\* positions where anything can differ from "all zeroes": the elements put, their neighbours, the ends
Near(s, base, n, w) == {j \in 0..(n - 1) : j < w \/ j >= n - w \/ (base = 0 /\ (s.fill[1] \in (j - w)..(j + w) \/ s.fill[2] \in (j - w)..(j + w))) \/ \E q \in s.put : q[1] - base \in (j - w)..(j + w)}
\* first position of 0..n-1 where P holds, P being constant outside the positions in N
FirstIn(n, o, N, P(_)) == /\ o \in 0..n /\ \A j \in N : j < o => ~P(j) /\ (o < n => o \in N /\ P(o))
                          /\ (o = n => \A j \in N : ~P(j))
LastIn(n, o, N, P(_)) == \/ o \in N /\ P(o) /\ \A j \in N : j > o => ~P(j)
                         \/ o = n /\ \A j \in N : ~P(j)
Right(s, a, b) ==
  LET op == s.call[1]  n == s.n  m == s.m
      V(j) == Elem(s, 0, j)
      W(j) == Elem(s, 100000, j)
      N == Near(s, 0, n, 3)
      B == N \union Near(s, 100000, Least(n, m), 3)
      At(j) == j + m <= n /\ \A k \in 0..(m - 1) : V(j + k) = W(k)
      Differ == {j \in B : j < Least(n, m) /\ V(j) # W(j)}
      D == IF Differ = {} THEN 0 - 1 ELSE CHOOSE j \in Differ : \A h \in Differ : j <= h
      Precedes == IF D < 0 THEN n < m ELSE V(D) < W(D)
      Follows == IF D < 0 THEN m < n ELSE W(D) < V(D)
      Big == {j \in N : \A h \in N : V(h) <= V(j)}
      Small == {j \in N : \A h \in N : V(h) >= V(j)}
  IN CASE op = 0 -> FirstIn(n, a, N, LAMBDA j : V(j) = 1)
       [] op = 1 -> FirstIn(n, a, N, LAMBDA j : V(j) = 2)
       [] op = 2 -> FirstIn(n, a, N, LAMBDA j : V(j) # 0)
       [] op = 3 -> a = Bool(\E j \in N : V(j) = 1) /\ b = 1 - a
       [] op = 4 -> a = Cardinality({j \in N : V(j) = 1}) /\ b = Cardinality({j \in N : V(j) = 2})
       [] op = 5 -> LET P(j) == j + 1 < n /\ V(j) # V(j + 1)  Q(j) == j + 1 < n /\ V(j) = 1 /\ V(j + 1) = 1 IN
                    FirstIn(n, a, N, P) /\ FirstIn(n, b, N, Q)
       [] op = 6 -> a = (IF D < 0 THEN Least(n, m) ELSE D) /\ b = a
       [] op = 7 -> a = Bool(n = m /\ D < 0) /\ b = Bool(Precedes)
       [] op = 8 -> a = Bool(Follows)
       [] op = 9 -> FirstIn(n, a, N, At)
       [] op = 10 -> LastIn(n, a, N, At)
       [] OTHER -> IF n = 0 THEN a = 0 /\ b = 0
                   ELSE /\ a \in Small /\ \A j \in Small : a <= j
                        /\ b \in Big /\ \A j \in Big : b <= j
SPost(s, e) ==
  CASE e[2] = 1 -> IF s.call = <<>> THEN {[s EXCEPT !.put = @ \union {<<e[3], e[4]>>}]} ELSE {}
    [] e[2] = 4 -> IF s.put = {} THEN {[s EXCEPT !.fill = SubSeq(e, 3, 5)]} ELSE {}
    [] e[2] = 2 -> {[s EXCEPT !.call = SubSeq(e, 3, 5)]}
    [] e[2] = 3 -> IF s.call # <<>> /\ Right(s, e[3], e[4]) THEN {[s EXCEPT !.done = TRUE]} ELSE {}
    [] OTHER -> {}
SFinal(s) == s.done
====
