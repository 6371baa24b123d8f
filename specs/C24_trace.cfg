SPECIFICATION TraceSpec
CONSTANTS
  TInit <- DInit
  TPost <- DPost
  TFinal <- DFinal
INVARIANT Report
CHECK_DEADLOCK FALSE
