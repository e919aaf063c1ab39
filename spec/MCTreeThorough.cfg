CONSTANTS
  Fmts <- AllFmts
  Paths <- PathsThorough
  Metas <- Two
  Vals <- ZeroOne
  AKeys <- KeysQuick
  AVals <- One
  Edges = FALSE
  Bugs <- NoBugs
SPECIFICATION Spec
VIEW View
INVARIANTS Refines TreeOk
PROPERTIES Isolated DocsSafe
CHECK_DEADLOCK FALSE
