SPECIFICATION TraceSpec
CONSTANTS
  TInit <- LSInit
  TPost <- LSPost
  TFinal <- LSFinal
INVARIANT Report
CHECK_DEADLOCK FALSE
