SPECIFICATION Spec
CONSTANTS
  Threads = {t1, t2, t3}
  Nodes = {1, 2, 3}
  Ops = 2
  Recheck = TRUE
  Scan = TRUE
INVARIANTS Refines Lengths NoFreedRead ChainLive
SYMMETRY Sym
CHECK_DEADLOCK FALSE
