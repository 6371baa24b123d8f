SPECIFICATION Spec
CONSTANTS
  MaxN = 6
  MaxB = 3
INVARIANTS AllPrefixes Found
CHECK_DEADLOCK FALSE
