SPECIFICATION TraceSpec
CONSTANTS
  TInit <- SWInit
  TPost <- SWPost
  TFinal <- SWFinal
INVARIANT Report
CHECK_DEADLOCK FALSE
