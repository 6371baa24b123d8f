SPECIFICATION TraceSpec
CONSTANTS
  TInit <- SInit
  TPost <- SPost
  TFinal <- SFinal
INVARIANT Report
CHECK_DEADLOCK FALSE
