SPECIFICATION Spec
CONSTANTS
  ParenRecvElem = TRUE
  AliasOwns = FALSE
INVARIANTS Declared Aliases OwnFirst
CHECK_DEADLOCK FALSE
