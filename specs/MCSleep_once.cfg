SPECIFICATION Spec
CONSTANTS
  Workers = {w1, w2}
  Forks = 2
  Own = TRUE
  SpamShutdown = FALSE
INVARIANTS Counts OneRuns
PROPERTY Terminates
CHECK_DEADLOCK FALSE
