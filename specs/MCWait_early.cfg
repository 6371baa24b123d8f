SPECIFICATION Spec
CONSTANTS
  Waiters = {1, 2, 3}
  Locs = {1, 2}
  LocOf <- LocOfDef
  Direct = FALSE
  Early = TRUE
INVARIANTS NotEarly CountOfWaiters
PROPERTY AllWake
CHECK_DEADLOCK FALSE
