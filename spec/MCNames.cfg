SPECIFICATION Spec
CONSTANTS
  MaxLen = 3
  CheckUpper = TRUE
INVARIANTS Capital NotCapital KeepsEmpty SameTail
PROPERTIES Idempotent
CHECK_DEADLOCK FALSE
