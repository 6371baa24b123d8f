----------------------------- MODULE ThreadLocal -----------------------------
(* Thread-specific objects: a growing array of elements, one per thread id.  *)
(* Elements are built (in groups, ahead of use) with the object's            *)
(* constructor function, never move, are shared by successive holders of an  *)
(* id, and are destroyed exactly once, with the object.                      *)
EXTENDS Integers, Sequences, FiniteSets
Extend(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
TLInit(p) == { [ ob |-> [o \in {} |-> 0],        \* objects: idx->addr known, idx->value, alive
                 el |-> [a \in {} |-> 0],        \* live elements: address -> [o, i]
                 id |-> [t \in 0..31 |-> -1], vis |-> [t \in 0..31 |-> <<>>], over |-> FALSE ] }
NewObj(s, o) == IF o \notin DOMAIN s.ob THEN { [s EXCEPT !.ob = Extend(@, o, [adr |-> [i \in {} |-> 0], val |-> [i \in {} |-> 0]])] } ELSE {}
\* an element is built at an address that holds no live element, for a fresh index
Ctor(s, o, i, a) == IF /\ a \notin DOMAIN s.el
                       /\ o < 90
                       /\ (i >= 0) => \A b \in DOMAIN s.el : ~(s.el[b].o = o /\ s.el[b].i = i)
                    THEN { [s EXCEPT !.el = Extend(@, a, [o |-> o, i |-> i])] } ELSE {}
Dtor(s, a) == IF a \in DOMAIN s.el THEN { [s EXCEPT !.el = [b \in DOMAIN @ \ {a} |-> @[b]]] } ELSE {}
Id(s, t, i) == IF i >= 0 /\ (s.id[t] \in {-1, i}) /\ \A u \in DOMAIN s.id : (u # t) => s.id[u] # i
  THEN { [s EXCEPT !.id[t] = i] } ELSE {}
\* address a is the element of index i of object o: always the same one, of nobody else
Elem(s, o, i, a) ==
  /\ a \in DOMAIN s.el
  /\ s.el[a].o \in {o, -1}
  /\ s.el[a].i \in {i, -1}
  /\ IF i \in DOMAIN s.ob[o].adr THEN s.ob[o].adr[i] = a
     ELSE \A p \in DOMAIN s.ob : \A j \in DOMAIN s.ob[p].adr : s.ob[p].adr[j] # a
Note(s, o, i, a) == [s EXCEPT !.ob[o].adr = Extend(@, i, a)]
Val(s, o, i) == IF i \in DOMAIN s.ob[o].val THEN s.ob[o].val[i] ELSE 0
Get(s, t, o, a, v, init) ==
  LET i == s.id[t] IN
  IF i # -1 /\ Elem(s, o, i, a) /\ v = Val(s, o, i) /\ init = s.el[a].i THEN { Note(s, o, i, a) } ELSE {}
Put(s, t, o, v) == { [s EXCEPT !.ob[o].val = Extend(@, s.id[t], v)] }
VBeg(s, t, o, how, m) == { [s EXCEPT !.vis[t] = <<o, m, {}>>] }
Vis(s, t, o, pos, a) ==
  IF s.vis[t] # <<>> /\ s.vis[t][1] = o /\ pos \notin s.vis[t][3] /\ pos >= 0 /\ Elem(s, o, pos, a)
  THEN { [Note(s, o, pos, a) EXCEPT !.vis[t][3] = @ \cup {pos}] } ELSE {}
VEnd(s, t, o, m) ==
  LET n == Cardinality(s.vis[t][3]) IN
  IF s.vis[t][1] = o /\ s.vis[t][3] = 0..n-1 /\ s.vis[t][2] <= n /\ n <= m THEN { [s EXCEPT !.vis[t] = <<>>] } ELSE {}
\* iterators at two positions: their order and distance
Cmp(s, t, i, j, bits, diff) ==
  LET b(c, v) == IF c THEN v ELSE 0 IN
  IF s.vis[t] # <<>> /\ diff = j - i /\ bits = b(i < j, 1) + b(i <= j, 2) + b(i > j, 4) + b(i >= j, 8) + b(i = j, 16) + b(i # j, 32) THEN {s} ELSE {}
\* everything built for the object is gone with it
Gone(s, o) ==
  IF \A a \in DOMAIN s.el : s.el[a].o # o /\ \A i \in DOMAIN s.ob[o].adr : s.ob[o].adr[i] # a
  THEN { [s EXCEPT !.ob = [p \in DOMAIN @ \ {o} |-> @[p]]] } ELSE {}
End(s, t) == { [s EXCEPT !.id[t] = -1] }
TLPost(s, e) ==
  CASE e[2] = 1 -> NewObj(s, e[3])
    [] e[2] = 2 -> Ctor(s, e[3], e[4], e[5])
    [] e[2] = 3 -> Dtor(s, e[3])
    [] e[2] = 4 -> Id(s, e[1], e[3])
    [] e[2] = 5 -> Get(s, e[1], e[3], e[4], e[5], e[6])
    [] e[2] = 6 -> Put(s, e[1], e[3], e[4])
    [] e[2] = 7 -> VBeg(s, e[1], e[3], e[4], e[5])
    [] e[2] = 8 -> Vis(s, e[1], e[3], e[4], e[5])
    [] e[2] = 9 -> VEnd(s, e[1], e[3], e[4])
    [] e[2] = 10 -> Gone(s, e[3])
    [] e[2] = 11 -> End(s, e[1])
    [] e[2] = 12 -> IF s.el = [a \in {} |-> 0] THEN { [s EXCEPT !.over = TRUE] } ELSE {}
    [] e[2] = 13 -> Cmp(s, e[1], e[3], e[4], e[5], e[6])
    [] OTHER -> {}
TLFinal(s) == s.over
=============================================================================
