SPECIFICATION Spec
CONSTANTS
  MaxN = 4
  Keys = {0, 1, 2}
  MaxP = 3
  Blocks = {1, 2, 3}
  SkipLast = TRUE
INVARIANTS Counted Result
CHECK_DEADLOCK FALSE
