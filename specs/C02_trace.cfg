SPECIFICATION TraceSpec
CONSTANTS
  TInit <- PLInit
  TPost <- PLPost
  TFinal <- PLFinal
INVARIANT Report
CHECK_DEADLOCK FALSE
