SPECIFICATION Spec
CONSTANTS
  MaxN = 6
  Keys = {0, 1, 2}
  MaxP = 3
  Blocks = {1, 2, 3}
  SkipLast = FALSE
INVARIANTS Counted Result
CHECK_DEADLOCK FALSE
