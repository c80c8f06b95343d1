SPECIFICATION MSpec
CONSTANTS
  ParenRecvElem = TRUE
  Steps = 3
  FirstWins = FALSE
INVARIANTS Owners Listed Names
CHECK_DEADLOCK FALSE
