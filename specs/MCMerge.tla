------------------------------- MODULE MCMerge -------------------------------
(* The parallel merge: a task merges a part of A with a part of B into the
   corresponding part of the result; large tasks are split at the middle of A
   and the first element of B that is not less, and the halves run in any
   order.  Upper is the mistake of splitting B after the elements equal to the
   middle.                                                                    *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets
CONSTANTS MaxN, Keys, Bases, Upper
VARIABLES A, B, base, tasks, R
vars == <<A, B, base, tasks, R>>
Up(s) == \A j \in 1..(Len(s) - 1) : s[j] <= s[j + 1]
Ups == { s \in UNION { [1..m -> Keys] : m \in 0..MaxN } : Up(s) }
Init == /\ A \in Ups /\ B \in Ups /\ base \in Bases /\ tasks = {<<0, Len(A), 0, Len(B)>>} /\ R = [j \in 1..(Len(A) + Len(B)) |-> <<>>]
\* elements are <<key, source, position>>; all of A comes before what is equal to it in B
ElA(j) == <<A[j], 1, j>>
ElB(j) == <<B[j], 2, j>>
RECURSIVE Seq2(_, _, _, _)
Seq2(a, ah, c, ch) == IF a = ah THEN [j \in 1..(ch - c) |-> ElB(c + j)] ELSE IF c = ch THEN [j \in 1..(ah - a) |-> ElA(a + j)]
                      ELSE IF B[c + 1] < A[a + 1] THEN <<ElB(c + 1)>> \o Seq2(a, ah, c + 1, ch) ELSE <<ElA(a + 1)>> \o Seq2(a + 1, ah, c, ch)
Size(t) == t[2] - t[1] + t[4] - t[3]
\* leaves are short or have only one side
IsLeaf(t) == Size(t) < base \/ t[1] = t[2] \/ t[3] = t[4]
Write(t) == LET s == Seq2(t[1], t[2], t[3], t[4]) IN R' = [j \in DOMAIN R |-> IF j > t[1] + t[3] /\ j <= t[1] + t[3] + Size(t) THEN R[j] \o s[j - t[1] - t[3]] ELSE R[j]]
Leaf == \E t \in tasks : IsLeaf(t) /\ Write(t) /\ tasks' = tasks \ {t} /\ UNCHANGED <<A, B, base>>
\* how many elements of B's part stand before the key x
BeforeX(t, x) == Cardinality({ j \in (t[3] + 1)..t[4] : IF Upper THEN B[j] <= x ELSE B[j] < x })
Split == \E t \in tasks : ~IsLeaf(t) /\
           LET m == (t[2] - t[1]) \div 2
               h == BeforeX(t, A[t[1] + m + 1])
               k == IF h = 0 THEN m + 1 ELSE m
           IN tasks' = (tasks \ {t}) \union {<<t[1], t[1] + k, t[3], t[3] + h>>, <<t[1] + k, t[2], t[3] + h, t[4]>>} /\ UNCHANGED <<A, B, base, R>>
Next == Leaf \/ Split
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
------------------------------------------------------------------------------
\* every place of the result is written once, with the element of the stable merge
Merged == LET M == Seq2(0, Len(A), 0, Len(B)) IN \A j \in DOMAIN R : R[j] \in {<<>>, M[j]}
Complete == tasks = {} => \A j \in DOMAIN R : R[j] # <<>>
\* both halves of a split are smaller
Progress == \A t \in tasks : t[1] <= t[2] /\ t[3] <= t[4]
Ends == <>(tasks = {})
=============================================================================
