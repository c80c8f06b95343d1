SPECIFICATION TSpec
CONSTANTS
  ParenRecvElem = TRUE
CHECK_DEADLOCK FALSE
