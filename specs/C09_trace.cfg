SPECIFICATION TraceSpec
CONSTANTS
  TInit <- BAInit
  TPost <- BAPost
  TFinal <- BAFinal
INVARIANT Report
CHECK_DEADLOCK FALSE
