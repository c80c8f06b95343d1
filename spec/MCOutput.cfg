SPECIFICATION MSpec
CONSTANTS
  MaxFiles = 2
  MaxLen = 2
  LoseClose = FALSE
  KeepGoing = FALSE
INVARIANTS ClosedOnce OneAtATime FirstError NoneLater Complete Nothing
PROPERTIES Ends
CHECK_DEADLOCK FALSE
