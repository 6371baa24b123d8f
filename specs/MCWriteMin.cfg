SPECIFICATION Spec
CONSTANTS
  Kind <- Kinds
  Args <- ArgsDef
  Retry = TRUE
INVARIANTS Same Improves Final
PROPERTY Ends
CHECK_DEADLOCK FALSE
