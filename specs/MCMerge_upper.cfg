SPECIFICATION Spec
CONSTANTS
  MaxN = 4
  Keys = {0, 1, 2}
  Bases = {1, 2, 3}
  Upper = TRUE
INVARIANTS Merged Complete Progress
CHECK_DEADLOCK FALSE
