CONSTANTS
  Fmts <- OneFmt
  Paths <- PathsQuick
  Metas <- One
  Vals <- ZeroOne
  AKeys <- KeysQuick
  AVals <- One
  Edges = FALSE
  Bugs <- BugParents
SPECIFICATION Spec
VIEW View
INVARIANTS Refines TreeOk
PROPERTIES Isolated DocsSafe
CHECK_DEADLOCK FALSE
