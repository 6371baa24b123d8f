------------------------------- MODULE MCParFor -------------------------------
(* The splitting of parallel loops: the automatic granularity runs a prefix  *)
(* whose chunks double until one takes long (the environment decides which), *)
(* the rest is cut in two at 9/16 until pieces are at most the granularity.  *)
(* Pieces may run in any order.  Refines ParLoop: every index exactly once.  *)
EXTENDS Integers, FiniteSets
CONSTANTS MaxN, Workers, Start
VARIABLES n, gran, done, sz, phase, pieces, ran
vars == <<n, gran, done, sz, phase, pieces, ran>>
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
Init == /\ n \in 0..MaxN /\ gran \in 0..3 /\ done = 0 /\ sz = 1 /\ pieces = {} /\ ran = [i \in Start..(Start + n - 1) |-> 0]
        /\ phase = IF n = 0 THEN "over" ELSE IF gran = 0 THEN "prefix" ELSE "split"
End == Start + n
Run(lo, hi) == ran' = [i \in DOMAIN ran |-> IF lo <= i /\ i < hi THEN ran[i] + 1 ELSE ran[i]]
\* one chunk of the prefix; `slow`: it took long
Chunk == /\ phase = "prefix"
         /\ LET s == Min(sz, n - done) IN
            /\ Run(Start + done, Start + done + s) /\ done' = done + s /\ sz' = 2 * s
            /\ \E slow \in BOOLEAN :
                 IF slow \/ done + s >= n
                 THEN phase' = "split" /\ gran' = Max(done + s, n \div (128 * Workers))
                 ELSE phase' = "prefix" /\ gran' = gran
         /\ UNCHANGED <<n, pieces>>
Begin == phase = "split" /\ phase' = "pieces" /\ pieces' = {<<Start + done, End>>} /\ UNCHANGED <<n, gran, done, sz, ran>>
CutAt(p) == /\ phase = "pieces" /\ p \in pieces /\ p[2] - p[1] > gran
          /\ LET mid == p[1] + (9 * (p[2] - p[1] + 1)) \div 16 IN pieces' = (pieces \ {p}) \cup {<<p[1], mid>>, <<mid, p[2]>>}
          /\ UNCHANGED <<n, gran, done, sz, phase, ran>>
DoPiece(p) == /\ phase = "pieces" /\ p \in pieces /\ p[2] - p[1] <= gran /\ Run(p[1], p[2]) /\ pieces' = pieces \ {p} /\ UNCHANGED <<n, gran, done, sz, phase>>
Cut == \E p \in pieces : CutAt(p)
Do == \E p \in pieces : DoPiece(p)
Next == Chunk \/ Begin \/ Cut \/ Do
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
------------------------------------------------------------------------------
AtMostOnce == \A i \in DOMAIN ran : ran[i] <= 1
Over == phase = "over" \/ (phase = "pieces" /\ pieces = {})
Exactly == Over => \A i \in DOMAIN ran : ran[i] = 1
\* both halves of a cut are smaller: the recursion ends
Shrinks == \A p \in pieces : p[2] - p[1] > gran /\ phase = "pieces" => LET mid == p[1] + (9 * (p[2] - p[1] + 1)) \div 16 IN p[1] < mid /\ mid < p[2]
Ends == <>Over
=============================================================================
