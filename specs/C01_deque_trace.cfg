SPECIFICATION TraceSpec
CONSTANTS
  TInit <- WDInit
  TPost <- WDPost
  TFinal <- WDFinal
INVARIANT Report
CHECK_DEADLOCK FALSE
