SPECIFICATION Spec
CONSTANTS
  ParenRecvElem = TRUE
  Size = "medium"
INVARIANTS RoundTrip ResolvesThroughText OnlyQualifiers Idempotent RefsOK
CHECK_DEADLOCK FALSE
