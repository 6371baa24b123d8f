SPECIFICATION Spec
CONSTANTS
  Workers = {w1, w2}
  Forks = 1
  Own = FALSE
  SpamShutdown = TRUE
INVARIANTS Counts OneRuns
PROPERTY Terminates
CHECK_DEADLOCK FALSE
