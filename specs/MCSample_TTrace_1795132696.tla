---- MODULE MCSample_TTrace_1795132696 ----
EXTENDS Sequences, TLCExt, Toolbox, MCSample, Naturals, TLC

_expression ==
    LET MCSample_TEExpression == INSTANCE MCSample_TEExpression
    IN MCSample_TEExpression!expression
----

_trace ==
    LET MCSample_TETrace == INSTANCE MCSample_TETrace
    IN MCSample_TETrace!trace
----

_inv ==
    ~(
        TLCGet("level") = Len(_TETrace)
        /\
        phase = ("buckets")
        /\
        b = (1)
        /\
        tmp = (<<<<1, 1>>, <<0, 2>>>>)
        /\
        v = (<<1, 0>>)
        /\
        cnt = (<<<<0, 1>>, <<0, 1>>>>)
        /\
        piv = (<<0>>)
        /\
        out = (<<<<>>, <<<<1, 1>>, <<0, 2>>>>>>)
        /\
        pend = ({})
    )
----

_init ==
    /\ phase = _TETrace[1].phase
    /\ tmp = _TETrace[1].tmp
    /\ b = _TETrace[1].b
    /\ out = _TETrace[1].out
    /\ v = _TETrace[1].v
    /\ pend = _TETrace[1].pend
    /\ cnt = _TETrace[1].cnt
    /\ piv = _TETrace[1].piv
----

_next ==
    /\ \E i,j \in DOMAIN _TETrace:
        /\ \/ /\ j = i + 1
              /\ i = TLCGet("level")
        /\ phase  = _TETrace[i].phase
        /\ phase' = _TETrace[j].phase
        /\ tmp  = _TETrace[i].tmp
        /\ tmp' = _TETrace[j].tmp
        /\ b  = _TETrace[i].b
        /\ b' = _TETrace[j].b
        /\ out  = _TETrace[i].out
        /\ out' = _TETrace[j].out
        /\ v  = _TETrace[i].v
        /\ v' = _TETrace[j].v
        /\ pend  = _TETrace[i].pend
        /\ pend' = _TETrace[j].pend
        /\ cnt  = _TETrace[i].cnt
        /\ cnt' = _TETrace[j].cnt
        /\ piv  = _TETrace[i].piv
        /\ piv' = _TETrace[j].piv

\* Uncomment the ASSUME below to write the states of the error trace
\* to the given file in Json format. Note that you can pass any tuple
\* to `JsonSerialize`. For example, a sub-sequence of _TETrace.
    \* ASSUME
    \*     LET J == INSTANCE Json
    \*         IN J!JsonSerialize("MCSample_TTrace_1795132696.json", _TETrace)

=============================================================================

 Note that you can extract this module `MCSample_TEExpression`
  to a dedicated file to reuse `expression` (the module in the 
  dedicated `MCSample_TEExpression.tla` file takes precedence 
  over the module `MCSample_TEExpression` below).

---- MODULE MCSample_TEExpression ----
EXTENDS Sequences, TLCExt, Toolbox, MCSample, Naturals, TLC

expression == 
    [
        \* To hide variables of the `MCSample` spec from the error trace,
        \* remove the variables below.  The trace will be written in the order
        \* of the fields of this record.
        phase |-> phase
        ,tmp |-> tmp
        ,b |-> b
        ,out |-> out
        ,v |-> v
        ,pend |-> pend
        ,cnt |-> cnt
        ,piv |-> piv
        
        \* Put additional constant-, state-, and action-level expressions here:
        \* ,_stateNumber |-> _TEPosition
        \* ,_phaseUnchanged |-> phase = phase'
        
        \* Format the `phase` variable as Json value.
        \* ,_phaseJson |->
        \*     LET J == INSTANCE Json
        \*     IN J!ToJson(phase)
        
        \* Lastly, you may build expressions over arbitrary sets of states by
        \* leveraging the _TETrace operator.  For example, this is how to
        \* count the number of times a spec variable changed up to the current
        \* state in the trace.
        \* ,_phaseModCount |->
        \*     LET F[s \in DOMAIN _TETrace] ==
        \*         IF s = 1 THEN 0
        \*         ELSE IF _TETrace[s].phase # _TETrace[s-1].phase
        \*             THEN 1 + F[s-1] ELSE F[s-1]
        \*     IN F[_TEPosition - 1]
    ]

=============================================================================



Parsing and semantic processing can take forever if the trace below is long.
 In this case, it is advised to uncomment the module below to deserialize the
 trace from a generated binary file.

\*
\*---- MODULE MCSample_TETrace ----
\*EXTENDS IOUtils, MCSample, TLC
\*
\*trace == IODeserialize("MCSample_TTrace_1795132696.bin", TRUE)
\*
\*=============================================================================
\*

---- MODULE MCSample_TETrace ----
EXTENDS MCSample, TLC

trace == 
    <<
    ([phase |-> "blocks",b |-> 1,tmp |-> <<>>,v |-> <<1, 0>>,cnt |-> <<<<0, 0>>, <<0, 0>>>>,piv |-> <<0>>,out |-> <<>>,pend |-> 1..2]),
    ([phase |-> "blocks",b |-> 1,tmp |-> <<<<1, 1>>>>,v |-> <<1, 0>>,cnt |-> <<<<0, 1>>, <<0, 0>>>>,piv |-> <<0>>,out |-> <<>>,pend |-> {2}]),
    ([phase |-> "blocks",b |-> 1,tmp |-> <<<<1, 1>>, <<0, 2>>>>,v |-> <<1, 0>>,cnt |-> <<<<0, 1>>, <<0, 1>>>>,piv |-> <<0>>,out |-> <<>>,pend |-> {}]),
    ([phase |-> "buckets",b |-> 1,tmp |-> <<<<1, 1>>, <<0, 2>>>>,v |-> <<1, 0>>,cnt |-> <<<<0, 1>>, <<0, 1>>>>,piv |-> <<0>>,out |-> <<<<>>, <<<<1, 1>>, <<0, 2>>>>>>,pend |-> 1..2]),
    ([phase |-> "buckets",b |-> 1,tmp |-> <<<<1, 1>>, <<0, 2>>>>,v |-> <<1, 0>>,cnt |-> <<<<0, 1>>, <<0, 1>>>>,piv |-> <<0>>,out |-> <<<<>>, <<<<1, 1>>, <<0, 2>>>>>>,pend |-> {2}]),
    ([phase |-> "buckets",b |-> 1,tmp |-> <<<<1, 1>>, <<0, 2>>>>,v |-> <<1, 0>>,cnt |-> <<<<0, 1>>, <<0, 1>>>>,piv |-> <<0>>,out |-> <<<<>>, <<<<1, 1>>, <<0, 2>>>>>>,pend |-> {}])
    >>
----


=============================================================================

---- CONFIG MCSample_TTrace_1795132696 ----
CONSTANTS
    MaxN = 4
    Keys = { 0 , 1 , 2 }
    MaxP = 3
    Blocks = { 1 , 2 , 3 }
    SkipLast = TRUE

INVARIANT
    _inv

CHECK_DEADLOCK
    \* CHECK_DEADLOCK off because of PROPERTY or INVARIANT above.
    FALSE

INIT
    _init

NEXT
    _next

CONSTANT
    _TETrace <- _trace

ALIAS
    _expression
=============================================================================
\* Generated on Thu Nov 19 23:58:20 UTC 2026