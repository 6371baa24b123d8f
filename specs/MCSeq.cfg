SPECIFICATION Spec
CONSTANTS
  Inline = 2
  MaxLen = 5
  Ops = 5
  Early = TRUE
INVARIANTS Right NoTemp Owned Sizes
CHECK_DEADLOCK FALSE
