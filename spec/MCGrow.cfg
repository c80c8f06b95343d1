SPECIFICATION GSpec
CONSTANTS
  ParenRecvElem = TRUE
  FileIds = {"A", "B"}
  OwnOf <- MCOwn
  InitVals <- MCVals
  UseSeqs <- MCUses
  AliasSeq <- MCAlias
  TrueNames <- MCTrue
  InPlace = FALSE
  Order = 1
  Cached = FALSE
  Most = 2
INVARIANTS Untouched ShowsAll ImportsAll
PROPERTIES Keeps OnlyOwn
CHECK_DEADLOCK FALSE
