SPECIFICATION Spec
CONSTANTS
  ParenRecvElem = TRUE
  Owns <- MCOwns
  Paths <- MCPaths
  Decls <- MCDecls
  Aliases <- MCAliases
INVARIANTS TypeOK Unique Valid NotOwn SpecsBind SpecsSorted SpecsRound Resolves
PROPERTIES Stable NoLoss
CHECK_DEADLOCK FALSE
