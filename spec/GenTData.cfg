CONSTANTS
  ParenRecvElem = TRUE
