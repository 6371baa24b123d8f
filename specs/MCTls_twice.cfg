SPECIFICATION Spec
CONSTANTS
  P = 1
  N = 4
  Threads = {t1, t2, v}
  Visitors = {v}
  Recheck = FALSE
  Late = TRUE
INVARIANTS Constructed Fixed NoSpare Done
CHECK_DEADLOCK FALSE
