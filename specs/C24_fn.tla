------------------------------- MODULE C24_fn -------------------------------
EXTENDS Determinism, FnDriver
Ok(r) ==
  /\ Determined(r.o[1])
  /\ CASE r.f \in {"shuffle", "permutation"} -> Permutation(r.o[2], r.p[2])
       [] r.f = "stream" -> Alike(r.o[2])
       [] r.f \in {"generator", "legacy", "distribution", "value"} -> TRUE
       [] OTHER -> FALSE
=============================================================================
