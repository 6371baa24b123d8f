----------------------------- MODULE ObjectLife -----------------------------
(* The life of one object.  It is constructed once, from a value or from an *)
(* object that had already given its value away; it may be read, assigned,   *)
(* and have its value taken, and is destroyed once.  A value is read or      *)
(* taken only while the object has one.                                      *)
EXTENDS Naturals
Born == 0      BornEmpty == 1   Read == 2   Taken == 3
Set == 4       SetEmpty == 5    Dead == 6   Start == 7
Events == 0..6
VARIABLES state, last
LInit == state = "unborn" /\ last = Start
Step(e) ==
  /\ CASE e = Born -> state = "unborn" /\ state' = "full"
       [] e = Read -> state = "full" /\ state' = "full"
       [] e = Taken -> state = "full" /\ state' = "empty"
       [] e = Set -> state \in {"full", "empty"} /\ state' = "full"
       [] e = Dead -> state \in {"full", "empty"} /\ state' = "dead"
       [] OTHER -> FALSE        \* BornEmpty, SetEmpty: there was nothing to take
  /\ last' = e
LNext == \E e \in Events : Step(e)
LSpec == LInit /\ [][LNext]_<<state, last>>
(* The state is a function of the last event, so a history is legal exactly  *)
(* when each pair of consecutive events is (with Start before the first).    *)
StateOf(e) == CASE e \in {Born, Read, Set} -> "full" [] e = Taken -> "empty" [] e = Dead -> "dead" [] e = Start -> "unborn"
Local == state = StateOf(last)
Legal(a, e) ==
  CASE a = Start -> e = Born
    [] a \in {Born, Read, Set} -> e \in {Read, Taken, Set, Dead}
    [] a = Taken -> e \in {Set, Dead}
    [] OTHER -> FALSE
PairsAreTheSpec == \A e \in Events : Legal(last, e) <=> ENABLED Step(e)
Complete(e) == e = Dead
=============================================================================
