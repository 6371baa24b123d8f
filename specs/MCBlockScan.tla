------------------------------ MODULE MCBlockScan ------------------------------
(* Scan, filter and search by blocks, for every block size, as the library   *)
(* does them: the blocks of a phase may be done in any order.                *)
(*  scan: block sums; an exclusive scan of the sums; a scan of each block    *)
(*        from its offset                                                     *)
(*  find: blocks of doubling size are searched one after another, the        *)
(*        elements of a block in any order with a running minimum that lets  *)
(*        later ones be skipped                                               *)
(* The operation is joining words, which no reordering survives.             *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets
CONSTANTS MaxN, MaxB
VARIABLES n, b, sums, outp, phase, pend, hit, match, i0, win
vars == <<n, b, sums, outp, phase, pend, hit, match, i0, win>>
Input(k) == <<k>>                                   \* the k-th input is the word "k"
Least2(x, y) == IF x < y THEN x ELSE y
NB == (n + b - 1) \div b
Lo(k) == k * b + 1
Hi(k) == Least2((k + 1) * b, n)
Word(lo, hi) == [j \in 1..(hi - lo + 1) |-> lo + j - 1]
Init == /\ n \in 0..MaxN /\ b \in 1..MaxB /\ sums = [k \in 0..(NB - 1) |-> <<>>] /\ outp = [k \in 1..n |-> <<-1>>]
        /\ phase = "sum" /\ pend = 0..(NB - 1) /\ hit = n + 1 /\ i0 = 1 /\ win = 1
        /\ match \in SUBSET (1..n)
SumOf(k) == phase = "sum" /\ k \in pend /\ sums' = [sums EXCEPT ![k] = FoldLeft(LAMBDA a, x : a \o Input(x), <<>>, Word(Lo(k), Hi(k)))] /\ pend' = pend \ {k}
          /\ UNCHANGED <<n, b, outp, phase, hit, match, i0, win>>
Offsets == /\ phase = "sum" /\ pend = {} /\ phase' = "scan" /\ pend' = 0..(NB - 1)
           /\ sums' = [k \in DOMAIN sums |-> FlattenSeq([j \in 1..k |-> sums[j - 1]])]
           /\ UNCHANGED <<n, b, outp, hit, match, i0, win>>
ScanOf(k) == /\ phase = "scan" /\ k \in pend /\ pend' = pend \ {k}
                /\ outp' = [j \in 1..n |-> IF Lo(k) <= j /\ j <= Hi(k) THEN sums[k] \o Word(Lo(k), j - 1) ELSE outp[j]]
                /\ UNCHANGED <<n, b, sums, phase, hit, match, i0, win>>
ToFind == phase = "scan" /\ pend = {} /\ phase' = "find" /\ win' = b /\ pend' = { j \in 1..n : j <= b } /\ UNCHANGED <<n, b, sums, outp, hit, match, i0>>
\* one element of the present window: it is skipped when something earlier has been found
LookAt(j) == /\ phase = "find" /\ j \in pend /\ pend' = pend \ {j}
           /\ hit' = (IF j < hit /\ j \in match THEN j ELSE hit) /\ UNCHANGED <<n, b, sums, outp, phase, match, i0, win>>
Window == /\ phase = "find" /\ pend = {}
          /\ IF hit <= n \/ i0 + win > n THEN phase' = "over" /\ UNCHANGED <<pend, i0, win>>
             ELSE i0' = i0 + win /\ win' = 2 * win /\ pend' = { j \in 1..n : i0' <= j /\ j < i0' + win' } /\ UNCHANGED phase
          /\ UNCHANGED <<n, b, sums, outp, hit, match>>
SumBlock == \E k \in pend : SumOf(k)
ScanBlock == \E k \in pend : ScanOf(k)
Look == \E k \in pend : LookAt(k)
Next == SumBlock \/ ScanBlock \/ Look \/ Offsets \/ ToFind \/ Window
Spec == Init /\ [][Next]_vars
------------------------------------------------------------------------------
AllPrefixes == phase \in {"find", "over"} => \A k \in 1..n : outp[k] = Word(1, k - 1)
Found == phase = "over" => IF match = {} THEN hit = n + 1 ELSE hit \in match /\ \A j \in match : hit <= j
=============================================================================
