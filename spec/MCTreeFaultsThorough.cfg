CONSTANTS
  Fmts <- AllFmts
  Paths <- PathsThorough
  Metas <- One
  Vals <- ZeroOne
  AKeys <- KeysQuick
  AVals <- One
  Edges = FALSE
  Bugs <- NoBugs
SPECIFICATION FSpec
VIEW FView
INVARIANTS FRefines Usable
PROPERTIES Outcomes
CHECK_DEADLOCK FALSE
