SPECIFICATION Spec
CONSTANTS
  Threads = {t1, t2}
  Nodes = {1, 2}
  Ops = 3
  Recheck = TRUE
  Scan = FALSE
INVARIANTS Refines Lengths NoFreedRead ChainLive
SYMMETRY Sym
CHECK_DEADLOCK FALSE
