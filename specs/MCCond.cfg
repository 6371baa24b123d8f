SPECIFICATION Spec
CONSTANTS
  Waiters = {1, 3}
  Locs = {1, 2}
  LocOf <- LocOfDef
  Flaw = 0
INVARIANTS NotEarly MutexHeld
PROPERTY AllWake
CHECK_DEADLOCK FALSE
