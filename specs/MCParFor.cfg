SPECIFICATION Spec
CONSTANTS
  MaxN = 9
  Workers = 2
  Start = 3
INVARIANTS AtMostOnce Exactly Shrinks
PROPERTY Ends
CHECK_DEADLOCK FALSE
