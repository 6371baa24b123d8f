SPECIFICATION TraceSpec
CONSTANTS
  TInit <- AWInit
  TPost <- AWPost
  TFinal <- AWFinal
INVARIANT Report
CHECK_DEADLOCK FALSE
