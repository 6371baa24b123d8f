SPECIFICATION Spec
CONSTANTS
  Threads = {t1, t2}
  L = 2
  MaxClaims = 3
  MaxOut = 6
  Again = TRUE
INVARIANTS OneOwner NoneTwice PoolLists AllThere Short
CHECK_DEADLOCK FALSE
