SPECIFICATION TraceSpec
CONSTANTS
  TInit <- WMInit
  TPost <- WMPost
  TFinal <- WMFinal
INVARIANT Report
CHECK_DEADLOCK FALSE
