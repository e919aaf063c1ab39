CONSTANTS
  Fmts <- AllFmts
  Paths <- PathsQuick
  Metas <- One
  Vals <- OneVal
  AKeys <- KeysEdges
  AVals <- One
  Edges = FALSE
  Bugs <- BugList
SPECIFICATION FSpec
VIEW FView
INVARIANTS FRefines Usable
PROPERTIES Outcomes
CHECK_DEADLOCK FALSE
