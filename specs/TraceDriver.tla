---------------------------- MODULE TraceDriver ----------------------------
(* Validates recorded histories of the implementation against a             *)
(* specification.  The specification is given by three operators:           *)
(*   TInit(p)     the set of initial states for scenario parameters p       *)
(*   TPost(s, e)  the set of states reachable from s by the specification's *)
(*                actions that explain event e (empty: no action does)      *)
(*   TFinal(s)    s is an acceptable state when the history is over         *)
(* The driver follows every explanation at once: S is the set of all        *)
(* specification states that explain the events consumed so far.  A history *)
(* is rejected when S becomes empty, when it ends abnormally (st # 0) or    *)
(* when no explanation ends in an acceptable state.                          *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS TInit(_), TPost(_, _), TFinal(_)

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES tr, l, S
dvars == <<tr, l, S>>

TraceInit == /\ tr \in 1..Len(Traces)
             /\ l = 0
             /\ S = TInit(Traces[tr].p)
TraceNext == /\ S # {}
             /\ l < Len(Traces[tr].e)
             /\ l' = l + 1
             /\ S' = UNION { TPost(s, Traces[tr].e[l + 1]) : s \in S }
             /\ tr' = tr
TraceSpec == TraceInit /\ [][TraceNext]_dvars

\* always TRUE; prints what is rejected
Report ==
  /\ (S = {}) => PrintT(<<"REJECT", tr, l, "no action explains this event">>)
  /\ (S # {} /\ l = Len(Traces[tr].e)) =>
        \/ Traces[tr].st = 0 /\ \E s \in S : TFinal(s)
        \/ PrintT(<<"REJECT", tr, l, IF Traces[tr].st # 0 THEN "abnormal end" ELSE "bad final state">>)
=============================================================================
