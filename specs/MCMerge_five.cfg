SPECIFICATION Spec
CONSTANTS
  MaxN = 5
  Keys = {0, 1, 2}
  Bases = {1, 2, 3}
  Upper = FALSE
INVARIANTS Merged Complete Progress
PROPERTIES Ends
CHECK_DEADLOCK FALSE
