SPECIFICATION Spec
CONSTANTS
  M = 7
  Homes <- HomesDef
  Ins <- InsDef2
  Del <- DelDef2
  Replace = TRUE
INVARIANT IsSet
PROPERTY Ends
CHECK_DEADLOCK FALSE
