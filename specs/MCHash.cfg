SPECIFICATION Spec
CONSTANTS
  M = 5
  Homes <- HomesDef
  Ins <- InsDef
  Del <- DelDef
  Replace = TRUE
INVARIANT IsSet
PROPERTY Ends
CHECK_DEADLOCK FALSE
