---- MODULE MCMerge_TTrace_1795132684 ----
EXTENDS Sequences, TLCExt, MCMerge, Toolbox, Naturals, TLC

_expression ==
    LET MCMerge_TEExpression == INSTANCE MCMerge_TEExpression
    IN MCMerge_TEExpression!expression
----

_trace ==
    LET MCMerge_TETrace == INSTANCE MCMerge_TETrace
    IN MCMerge_TETrace!trace
----

_inv ==
    ~(
        TLCGet("level") = Len(_TETrace)
        /\
        A = (<<0>>)
        /\
        B = (<<0>>)
        /\
        R = (<<<<0, 2, 1>>, <<>>>>)
        /\
        tasks = ({<<0, 1, 1, 1>>})
        /\
        base = (2)
    )
----

_init ==
    /\ A = _TETrace[1].A
    /\ B = _TETrace[1].B
    /\ tasks = _TETrace[1].tasks
    /\ R = _TETrace[1].R
    /\ base = _TETrace[1].base
----

_next ==
    /\ \E i,j \in DOMAIN _TETrace:
        /\ \/ /\ j = i + 1
              /\ i = TLCGet("level")
        /\ A  = _TETrace[i].A
        /\ A' = _TETrace[j].A
        /\ B  = _TETrace[i].B
        /\ B' = _TETrace[j].B
        /\ tasks  = _TETrace[i].tasks
        /\ tasks' = _TETrace[j].tasks
        /\ R  = _TETrace[i].R
        /\ R' = _TETrace[j].R
        /\ base  = _TETrace[i].base
        /\ base' = _TETrace[j].base

\* Uncomment the ASSUME below to write the states of the error trace
\* to the given file in Json format. Note that you can pass any tuple
\* to `JsonSerialize`. For example, a sub-sequence of _TETrace.
    \* ASSUME
    \*     LET J == INSTANCE Json
    \*         IN J!JsonSerialize("MCMerge_TTrace_1795132684.json", _TETrace)

=============================================================================

 Note that you can extract this module `MCMerge_TEExpression`
  to a dedicated file to reuse `expression` (the module in the 
  dedicated `MCMerge_TEExpression.tla` file takes precedence 
  over the module `MCMerge_TEExpression` below).

---- MODULE MCMerge_TEExpression ----
EXTENDS Sequences, TLCExt, MCMerge, Toolbox, Naturals, TLC

expression == 
    [
        \* To hide variables of the `MCMerge` spec from the error trace,
        \* remove the variables below.  The trace will be written in the order
        \* of the fields of this record.
        A |-> A
        ,B |-> B
        ,tasks |-> tasks
        ,R |-> R
        ,base |-> base
        
        \* Put additional constant-, state-, and action-level expressions here:
        \* ,_stateNumber |-> _TEPosition
        \* ,_AUnchanged |-> A = A'
        
        \* Format the `A` variable as Json value.
        \* ,_AJson |->
        \*     LET J == INSTANCE Json
        \*     IN J!ToJson(A)
        
        \* Lastly, you may build expressions over arbitrary sets of states by
        \* leveraging the _TETrace operator.  For example, this is how to
        \* count the number of times a spec variable changed up to the current
        \* state in the trace.
        \* ,_AModCount |->
        \*     LET F[s \in DOMAIN _TETrace] ==
        \*         IF s = 1 THEN 0
        \*         ELSE IF _TETrace[s].A # _TETrace[s-1].A
        \*             THEN 1 + F[s-1] ELSE F[s-1]
        \*     IN F[_TEPosition - 1]
    ]

=============================================================================



Parsing and semantic processing can take forever if the trace below is long.
 In this case, it is advised to uncomment the module below to deserialize the
 trace from a generated binary file.

\*
\*---- MODULE MCMerge_TETrace ----
\*EXTENDS IOUtils, MCMerge, TLC
\*
\*trace == IODeserialize("MCMerge_TTrace_1795132684.bin", TRUE)
\*
\*=============================================================================
\*

---- MODULE MCMerge_TETrace ----
EXTENDS MCMerge, TLC

trace == 
    <<
    ([A |-> <<0>>,B |-> <<0>>,R |-> <<<<>>, <<>>>>,tasks |-> {<<0, 1, 0, 1>>},base |-> 2]),
    ([A |-> <<0>>,B |-> <<0>>,R |-> <<<<>>, <<>>>>,tasks |-> {<<0, 0, 0, 1>>, <<0, 1, 1, 1>>},base |-> 2]),
    ([A |-> <<0>>,B |-> <<0>>,R |-> <<<<0, 2, 1>>, <<>>>>,tasks |-> {<<0, 1, 1, 1>>},base |-> 2])
    >>
----


=============================================================================

---- CONFIG MCMerge_TTrace_1795132684 ----
CONSTANTS
    MaxN = 4
    Keys = { 0 , 1 , 2 }
    Bases = { 1 , 2 , 3 }
    Upper = TRUE

INVARIANT
    _inv

CHECK_DEADLOCK
    \* CHECK_DEADLOCK off because of PROPERTY or INVARIANT above.
    FALSE

INIT
    _init

NEXT
    _next

CONSTANT
    _TETrace <- _trace

ALIAS
    _expression
=============================================================================
\* Generated on Thu Nov 19 23:58:06 UTC 2026