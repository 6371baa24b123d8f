SPECIFICATION TraceSpec
CONSTANTS
  TInit <- MAInit
  TPost <- MAPost
  TFinal <- MAFinal
INVARIANT Report
CHECK_DEADLOCK FALSE
