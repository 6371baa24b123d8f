------------------------------ MODULE ParLoop ------------------------------
(* Parallel loops.  A loop over n indices (block size 0) calls its body     *)
(* exactly once for each index 0..n-1; a blocked loop with block size b > 0 *)
(* calls it exactly once per block k with the range [k*b, min((k+1)*b, n)). *)
(* A loop ends only when all its calls have returned, and then the effects  *)
(* of all of them are visible.  Loops may be nested inside calls.           *)
(* Indices are relative to the start of the range.                          *)
(* Events: 1 BEGIN loop n bs outer   2 CALL loop i s e   3 RET loop i        *)
(*         4 FIN loop seen   5 COUNT loop value run   6 BLK loop value run   *)
EXTENDS Integers, Sequences, FiniteSets

NCalls(n, bs) == IF bs = 0 THEN n ELSE (n + bs - 1) \div bs
Lo(bs, i) == IF bs = 0 THEN i ELSE i * bs
Hi(n, bs, i) == IF bs = 0 THEN i + 1 ELSE IF (i + 1) * bs < n THEN (i + 1) * bs ELSE n

\* per loop: phase ("none", "open", "fin"), n, bs, called and returned indices,
\* run-length coded counters of large loops, the call that encloses it
NoLoop == [ph |-> "none", n |-> 0, bs |-> 0, called |-> {}, ret |-> {}, cnt |-> <<>>, blk |-> <<>>, outer |-> 0]
PLState(nl) == [ lp |-> [i \in 0..nl-1 |-> NoLoop] ]

OuterActive(s, o) == o = 0 \/ LET ol == (o - 1) \div 1000  oi == (o - 1) % 1000
                              IN /\ s.lp[ol].ph = "open" /\ oi \in s.lp[ol].called /\ oi \notin s.lp[ol].ret

Begin(s, k, n, bs, o) ==
  IF s.lp[k].ph = "none" /\ OuterActive(s, o)
  THEN { [s EXCEPT !.lp[k] = [NoLoop EXCEPT !.ph = "open", !.n = n, !.bs = bs, !.outer = o]] } ELSE {}

Call(s, k, i, lo, hi) ==
  LET L == s.lp[k] IN
  IF /\ L.ph = "open" /\ i \in 0..NCalls(L.n, L.bs)-1 /\ i \notin L.called
     /\ lo = Lo(L.bs, i) /\ hi = Hi(L.n, L.bs, i)
  THEN { [s EXCEPT !.lp[k].called = @ \cup {i}] } ELSE {}

Ret(s, k, i) ==
  LET L == s.lp[k] IN
  IF /\ L.ph = "open" /\ i \in L.called \ L.ret
     /\ \A j \in DOMAIN s.lp : (s.lp[j].outer = k * 1000 + i + 1) => s.lp[j].ph = "fin"
  THEN { [s EXCEPT !.lp[k].ret = @ \cup {i}] } ELSE {}

Fin(s, k, seen) ==
  LET L == s.lp[k] IN
  IF /\ L.ph = "open" /\ L.cnt = <<>>
     /\ L.ret = 0..NCalls(L.n, L.bs)-1
     /\ seen = NCalls(L.n, L.bs)
  THEN { [s EXCEPT !.lp[k].ph = "fin"] } ELSE {}

\* large loops: the number of calls per index, run-length coded, must be one for each of the n
\* indices and zero for the two slots behind them (indices outside the range are counted there)
Count(s, k, v, r) == { [s EXCEPT !.lp[k].cnt = Append(@, <<v, r>>)] }
Blk(s, k, v, r)   == { [s EXCEPT !.lp[k].blk = Append(@, <<v, r>>)] }
FinBig(s, k) ==
  LET L == s.lp[k]  nb == NCalls(L.n, L.bs) IN
  IF /\ L.ph = "open"
     /\ L.cnt = << <<1, L.n>>, <<0, 2>> >>
     /\ IF L.bs = 0 THEN L.blk = <<>> ELSE L.blk = << <<1, nb>>, <<0, L.n + 2 - nb>> >>
  THEN { [s EXCEPT !.lp[k].ph = "fin"] } ELSE {}

PLInit(p) == { PLState(p[1]) }
PLPost(s, e) ==
  CASE e[2] = 1 -> Begin(s, e[3], e[4], e[5], e[6])
    [] e[2] = 2 -> Call(s, e[3], e[4], e[5], e[6])
    [] e[2] = 3 -> Ret(s, e[3], e[4])
    [] e[2] = 4 -> IF e[4] = -1 THEN FinBig(s, e[3]) ELSE Fin(s, e[3], e[4])
    [] e[2] = 5 -> Count(s, e[3], e[4], e[5])
    [] e[2] = 6 -> Blk(s, e[3], e[4], e[5])
    [] OTHER -> {}
PLFinal(s) == \A k \in DOMAIN s.lp : s.lp[k].ph = "fin"
=============================================================================
