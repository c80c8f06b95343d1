SPECIFICATION CMSpec
CONSTANTS
  ParenRecvElem = TRUE
  Steps = 3
  ByReference = FALSE
INVARIANTS Lines Examples
PROPERTY Grows
CHECK_DEADLOCK FALSE
