SPECIFICATION Spec
CONSTANTS
  ParenRecvElem = TRUE
CHECK_DEADLOCK FALSE
