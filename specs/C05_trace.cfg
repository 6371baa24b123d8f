SPECIFICATION TraceSpec
CONSTANTS
  TInit <- TIInit
  TPost <- TIPost
  TFinal <- TIFinal
INVARIANT Report
CHECK_DEADLOCK FALSE
