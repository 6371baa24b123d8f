SPECIFICATION Spec
CONSTANTS
  Threads = {t1, t2}
  Nodes = {1, 2}
  Ops = 3
  Recheck = FALSE
  Scan = TRUE
INVARIANTS Refines Lengths NoFreedRead ChainLive
SYMMETRY Sym
CHECK_DEADLOCK FALSE
