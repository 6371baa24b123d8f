SPECIFICATION Spec
CONSTANTS
  Kind <- KindsMin
  Args <- ArgsMin
  Retry = FALSE
INVARIANTS Same Improves Final

CHECK_DEADLOCK FALSE
