SPECIFICATION TraceSpec
CONSTANTS
  TInit <- TLInit
  TPost <- TLPost
  TFinal <- TLFinal
INVARIANT Report
CHECK_DEADLOCK FALSE
