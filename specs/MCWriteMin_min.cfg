SPECIFICATION Spec
CONSTANTS
  Kind <- KindsMin
  Args <- ArgsMin
  Retry = TRUE
INVARIANTS Same Improves Final
PROPERTY Ends
CHECK_DEADLOCK FALSE
