SPECIFICATION Spec
CONSTANTS
  Inline = 2
  MaxLen = 4
  Ops = 4
  Early = FALSE
INVARIANTS Right NoTemp Owned Sizes
CHECK_DEADLOCK FALSE
