SPECIFICATION MSpec
CONSTANTS
  ParenRecvElem = TRUE
  InPlace = FALSE
  SkipKeys = FALSE
  ForgetSeen = FALSE
  Deep = TRUE
  Size = "small"
INVARIANTS Kept Qualified Idempotent Enabled
CHECK_DEADLOCK FALSE
