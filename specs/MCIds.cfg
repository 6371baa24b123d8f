SPECIFICATION Spec
CONSTANTS
  Threads = {t1, t2, t3}
  Rounds = 3
  Locked = TRUE
INVARIANTS Unique NotFree Dense NoneLost
SYMMETRY Sym
CHECK_DEADLOCK FALSE
