----------------------------- MODULE FnDriver -----------------------------
(* Validates recorded calls of the implementation.  A record r is           *)
(*   [c: case, w: workers, st: 0 when the call returned, f: function name,  *)
(*    p: integer parameters, i: input arrays, o: output arrays]             *)
(* and FOk(r) is the specification's verdict.  One state per record.        *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
CONSTANT FOk(_)
Recs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE recno
FInit == recno \in 1..Len(Recs)
FNext == FALSE /\ UNCHANGED recno
FSpec == FInit /\ [][FNext]_recno
Report == \/ Recs[recno].st = 0 /\ FOk(Recs[recno])
          \/ PrintT(<<"REJECT", recno, 0, IF Recs[recno].st # 0 THEN "abnormal end of " \o Recs[recno].f ELSE "wrong result of " \o Recs[recno].f>>)
=============================================================================
