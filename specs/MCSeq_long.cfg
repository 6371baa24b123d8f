SPECIFICATION Spec
CONSTANTS
  Inline = 2
  MaxLen = 6
  Ops = 6
  Early = TRUE
INVARIANTS Right NoTemp Owned Sizes
CHECK_DEADLOCK FALSE
