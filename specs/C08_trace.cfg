SPECIFICATION TraceSpec
CONSTANTS
  TInit <- RCInit
  TPost <- RCPost
  TFinal <- RCFinal
INVARIANT Report
CHECK_DEADLOCK FALSE
