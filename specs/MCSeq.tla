-------------------------------- MODULE MCSeq --------------------------------
(* The storage of sequences: a few elements inline, or a heap buffer with a  *)
(* capacity.  An operation is a short program of steps on storage (ensure a  *)
(* capacity, cut off the tail into another sequence, construct an element,   *)
(* relocate another sequence's elements to the end, ..); when a program has  *)
(* ended, the containers hold what the specification of the operation says,  *)
(* and in every state an element is in one place and a buffer in one         *)
(* sequence.  Early: an argument is read before its element can be moved.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Inline, MaxLen, Ops, Early
Cont == {1, 2, 3}            \* two containers and the temporary of an operation
Rest(p) == SubSeq(p, 2, Len(p))
VARIABLES heap, rep, prog, reg, want, k
vars == <<heap, rep, prog, reg, want, k>>
Raw == -1                    \* a cell without an element
\* heap: buffer -> its cells;  rep: [big, buf, n, cells]
Empty == [big |-> FALSE, buf |-> 0, n |-> 0, cells |-> [i \in 1..Inline |-> Raw]]
Init == /\ heap = [b \in {} |-> <<>>] /\ rep = [c \in Cont |-> Empty] /\ prog = <<>> /\ reg = Raw
        /\ want = [c \in Cont |-> <<>>] /\ k = 0
Cells(r, h) == IF r.big THEN h[r.buf] ELSE r.cells
Cap(c) == Len(Cells(rep[c], heap))
Elems(c) == SubSeq(Cells(rep[c], heap), 1, rep[c].n)
Fresh == CHOOSE b \in 1..8 : b \notin DOMAIN heap
Drop(h, S) == [b \in DOMAIN h \ S |-> h[b]]
Buf(r) == IF r.big THEN {r.buf} ELSE {}
Pad(s, m) == s \o [i \in 1..(m - Len(s)) |-> Raw]
Put(c, cells, n) ==          \* new cells and size, in the same place
  /\ rep' = [rep EXCEPT ![c] = IF @.big THEN [@ EXCEPT !.n = n] ELSE [@ EXCEPT !.n = n, !.cells = cells]]
  /\ heap' = (IF rep[c].big THEN [heap EXCEPT ![rep[c].buf] = cells] ELSE heap)
Max(a, b) == IF a > b THEN a ELSE b
Ensure(c, d) ==
  IF d <= Cap(c) THEN UNCHANGED <<heap, rep>>
  ELSE LET b == Fresh  m == Max(d, (5 * Cap(c)) \div 2) IN
       /\ heap' = [x \in (DOMAIN heap \cup {b}) \ Buf(rep[c]) |-> IF x = b THEN Pad(Elems(c), m) ELSE heap[x]]
       /\ rep' = [rep EXCEPT ![c] = [big |-> TRUE, buf |-> b, n |-> rep[c].n, cells |-> Empty.cells]]
\* construct v at the end (the capacity is there)
Back(c, v) == Put(c, [Cells(rep[c], heap) EXCEPT ![rep[c].n + 1] = v], rep[c].n + 1)
\* the elements of c from p on go to the empty sequence t
Cut(c, p, t) ==
  IF p = rep[c].n THEN UNCHANGED <<heap, rep>>
  ELSE LET m == rep[c].n - p  moved == SubSeq(Elems(c), p + 1, rep[c].n)  b == Fresh
           left == Pad(SubSeq(Elems(c), 1, p), Cap(c))
           h1 == IF rep[c].big THEN [heap EXCEPT ![rep[c].buf] = left] ELSE heap
           r1 == IF rep[c].big THEN [rep EXCEPT ![c].n = p] ELSE [rep EXCEPT ![c].n = p, ![c].cells = left] IN
       IF m <= Inline THEN heap' = h1 /\ rep' = [r1 EXCEPT ![t] = [Empty EXCEPT !.n = m, !.cells = Pad(moved, Inline)]]
       ELSE /\ heap' = [x \in DOMAIN h1 \cup {b} |-> IF x = b THEN moved ELSE h1[x]]
            /\ rep' = [r1 EXCEPT ![t] = [big |-> TRUE, buf |-> b, n |-> m, cells |-> Empty.cells]]
\* c takes everything of t, when it is empty and has no more room than that
Take(c, t) == rep' = [rep EXCEPT ![c] = rep[t], ![t] = Empty] /\ heap' = Drop(heap, Buf(rep[c]))
\* t's elements are relocated to the end of c (the capacity is there)
Join(c, t) ==
  LET cells == Pad(Elems(c) \o Elems(t), Cap(c))  n == rep[c].n + rep[t].n
      r1 == [rep EXCEPT ![t] = Empty]  h1 == Drop(heap, Buf(rep[t])) IN
  /\ rep' = [r1 EXCEPT ![c] = IF @.big THEN [@ EXCEPT !.n = n] ELSE [@ EXCEPT !.n = n, !.cells = cells]]
  /\ heap' = (IF rep[c].big THEN [h1 EXCEPT ![rep[c].buf] = cells] ELSE h1)
Clear(c) == rep' = [rep EXCEPT ![c] = Empty] /\ heap' = Drop(heap, Buf(rep[c]))
\* the element an argument refers to: what is in that place now (nothing, if it is gone)
At(r) == IF r.big THEN IF r.buf \in DOMAIN heap /\ r.q <= Len(heap[r.buf]) THEN heap[r.buf][r.q] ELSE Raw ELSE rep[r.c].cells[r.q]
Ref(c, q) == [c |-> c, big |-> rep[c].big, buf |-> rep[c].buf, q |-> q]
S(op, c) == [op |-> op, c |-> c, t |-> 3, p |-> 0, ref |-> Ref(c, 0)]
Read(r) == [S("read", r.c) EXCEPT !.ref = r]
Sz(op, c, p) == [S(op, c) EXCEPT !.p = p]
\* ---- the operations ----
Room(c, m) == rep[c].n + m <= MaxLen
Begin(P, w) == prog' = P /\ want' = w /\ k' = k + 1 /\ UNCHANGED <<heap, rep, reg>>
Idle == prog = <<>> /\ k < Ops
User == {1, 2}
New(c) == rep[c].n + (10 * k) + 1          \* a value that tells where it came from
Push(c) == Idle /\ Room(c, 1) /\ Begin(<<Sz("value", c, New(c)), Sz("ensure", c, rep[c].n + 1), S("back", c)>>, [want EXCEPT ![c] = Append(@, New(c))])
PushSelf(c) == /\ Idle /\ Room(c, 1) /\ rep[c].n > 0
               /\ \E q \in {1, rep[c].n} : LET rd == Read(Ref(c, q))  en == Sz("ensure", c, rep[c].n + 1) IN
                  Begin(IF Early THEN <<rd, en, S("back", c)>> ELSE <<en, rd, S("back", c)>>, [want EXCEPT ![c] = Append(@, want[c][q])])
InsertSelf(c) == /\ Idle /\ Room(c, 1) /\ rep[c].n > 0
                 /\ \E q \in 1..rep[c].n : \E p \in 0..(rep[c].n - 1) :
                    LET rd == Read(Ref(c, q))  en == Sz("ensure", c, rep[c].n + 1)  cut == Sz("tail", c, p) IN
                    Begin(IF Early THEN <<rd, en, cut, S("back", c), S("append", c)>> ELSE <<en, cut, rd, S("back", c), S("append", c)>>,
                          [want EXCEPT ![c] = SubSeq(@, 1, p) \o <<want[c][q]>> \o SubSeq(@, p + 1, Len(@))])
PopTail(c, t) == Idle /\ rep[t].n = 0 /\ \E p \in 0..rep[c].n :
                 Begin(<<S("clear", t), [Sz("tail", c, p) EXCEPT !.t = t]>>, [want EXCEPT ![c] = SubSeq(@, 1, p), ![t] = SubSeq(want[c], p + 1, Len(want[c]))])
AppendAll(c, t) == Idle /\ Room(c, rep[t].n) /\ Begin(<<[S("append", c) EXCEPT !.t = t]>>, [want EXCEPT ![c] = @ \o want[t], ![t] = <<>>])
InsertAll(c, t) == Idle /\ Room(c, rep[t].n) /\ \E p \in 0..rep[c].n :
                   Begin(<<Sz("tail", c, p), [S("append", c) EXCEPT !.t = t], S("append", c)>>,
                         [want EXCEPT ![c] = SubSeq(@, 1, p) \o want[t] \o SubSeq(@, p + 1, Len(@)), ![t] = <<>>])
Erase(c) == Idle /\ \E p \in 0..rep[c].n : \E q \in p..rep[c].n :
            Begin(<<Sz("tail", c, q), Sz("shrink", c, p), S("append", c)>>, [want EXCEPT ![c] = SubSeq(@, 1, p) \o SubSeq(@, q + 1, Len(@))])
Reserve(c) == Idle /\ \E d \in (Inline + 1)..MaxLen : Begin(<<Sz("ensure", c, d)>>, want)
ClearAll(c) == Idle /\ rep[c].n > 0 /\ Begin(<<S("clear", c)>>, [want EXCEPT ![c] = <<>>])
\* ---- one step of the program ----
Step(s, rest) ==
  CASE s.op = "value"  -> reg' = s.p /\ prog' = rest /\ UNCHANGED <<heap, rep>>
    [] s.op = "read"   -> reg' = At(s.ref) /\ prog' = rest /\ UNCHANGED <<heap, rep>>
    [] s.op = "ensure" -> Ensure(s.c, s.p) /\ prog' = rest /\ UNCHANGED reg
    [] s.op = "back"   -> Back(s.c, reg) /\ prog' = rest /\ UNCHANGED reg
    [] s.op = "tail"   -> Cut(s.c, s.p, s.t) /\ prog' = rest /\ UNCHANGED reg
    [] s.op = "shrink" -> Put(s.c, Pad(SubSeq(Elems(s.c), 1, s.p), Cap(s.c)), s.p) /\ prog' = rest /\ UNCHANGED reg
    [] s.op = "clear"  -> Clear(s.c) /\ prog' = rest /\ UNCHANGED reg
    [] s.op = "join"   -> Join(s.c, s.t) /\ prog' = rest /\ UNCHANGED reg
    [] s.op = "append" -> /\ IF rep[s.c].n = 0 /\ Cap(s.c) <= rep[s.t].n THEN Take(s.c, s.t) /\ prog' = rest
                             ELSE prog' = <<Sz("ensure", s.c, rep[s.c].n + rep[s.t].n), [s EXCEPT !.op = "join"]>> \o rest /\ UNCHANGED <<heap, rep>>
                          /\ UNCHANGED reg
Run == prog # <<>> /\ Step(Head(prog), Rest(prog)) /\ UNCHANGED <<want, k>>
Next == \/ Run
        \/ \E c \in User : \/ Push(c) \/ PushSelf(c) \/ InsertSelf(c) \/ Erase(c) \/ Reserve(c) \/ ClearAll(c)
                           \/ PopTail(c, 3 - c) \/ AppendAll(c, 3 - c) \/ InsertAll(c, 3 - c)
Spec == Init /\ [][Next]_vars
------------------------------------------------------------------------------
\* what was asked for is what is there
Right == prog = <<>> => \A c \in User : Elems(c) = want[c]
\* the temporary is empty again
NoTemp == prog = <<>> => rep[3].n = 0 /\ ~rep[3].big
\* every buffer belongs to one sequence; sizes fit; cells beyond the size hold nothing
Owned == /\ \A c, d \in Cont : c # d /\ rep[c].big /\ rep[d].big => rep[c].buf # rep[d].buf
         /\ DOMAIN heap = { rep[c].buf : c \in { d \in Cont : rep[d].big } }
Sizes == \A c \in Cont : /\ rep[c].n <= Cap(c)
                         /\ \A i \in 1..Cap(c) : (Cells(rep[c], heap)[i] = Raw) <=> (i > rep[c].n)
=============================================================================
