SPECIFICATION TraceSpec
CONSTANTS
  TInit <- HSInit
  TPost <- HSPost
  TFinal <- HSFinal
INVARIANT Report
CHECK_DEADLOCK FALSE
