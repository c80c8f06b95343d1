SPECIFICATION Spec
CONSTANTS
  ParenRecvElem = TRUE
  FileIds = {"A", "B"}
  OwnOf <- MCOwn
  InitVals <- MCVals
  UseSeqs <- MCUses
  AliasSeq <- MCAlias
  TrueNames <- MCTrue
  InPlace = FALSE
  Order = 2
INVARIANTS AsIfFresh Untouched Denotes Exact
PROPERTIES StepsOK OnlyOwn
CHECK_DEADLOCK FALSE
