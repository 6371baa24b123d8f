SPECIFICATION TraceSpec
CONSTANTS
  TInit <- FJInit
  TPost <- FJPost
  TFinal <- FJFinal
INVARIANT Report
CHECK_DEADLOCK FALSE
