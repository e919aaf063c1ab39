CONSTANTS
  Fmts <- OnlyN5
  Paths <- PathsQuick
  Metas <- One
  Vals <- ZeroOne
  AKeys <- KeysQuick
  AVals <- One
  Edges = FALSE
  Bugs <- BugChunkDirs
SPECIFICATION Spec
VIEW View
INVARIANTS Refines TreeOk
PROPERTIES Isolated DocsSafe
CHECK_DEADLOCK FALSE
