SPECIFICATION Spec
CONSTANTS
  Jobs = 3
  Thieves = {t1,t2}
  Steals = 2
  Pops = 4
  Fence = TRUE
SYMMETRY Sym
INVARIANTS AtMostOnce NothingLost
CHECK_DEADLOCK FALSE
