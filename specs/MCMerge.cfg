SPECIFICATION Spec
CONSTANTS
  MaxN = 4
  Keys = {0, 1, 2}
  Bases = {1, 2, 3}
  Upper = FALSE
INVARIANTS Merged Complete Progress
PROPERTIES Ends
CHECK_DEADLOCK FALSE
