CONSTANTS
  Fmts <- OneFmt
  Paths <- PathsEdges
  Metas <- Two
  Vals <- ZeroOne
  AKeys <- KeysEdges
  AVals <- One
  Edges = TRUE
  Bugs <- NoBugs
SPECIFICATION Spec
VIEW View
INVARIANTS Refines TreeOk
ACTION_CONSTRAINT PrintEdges
CHECK_DEADLOCK FALSE
