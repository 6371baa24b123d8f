SPECIFICATION TraceSpec
CONSTANTS
  TInit <- WKInit
  TPost <- WKPost
  TFinal <- WKFinal
INVARIANT Report
CHECK_DEADLOCK FALSE
