SPECIFICATION TSpec
CONSTANTS
  ParenRecvElem = TRUE
  Owns = {}
  Paths = {}
  Decls = {}
  Aliases = {}
INVARIANTS TInv
CHECK_DEADLOCK FALSE
