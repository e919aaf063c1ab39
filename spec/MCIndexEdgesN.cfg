CONSTANTS
  MaxRank = 3
  MaxExt = 2
  Full = FALSE
  Dump = TRUE
  Bugs = {}
SPECIFICATION Spec
INVARIANTS AlgorithmAgrees InRange AssignRead Trailing RectifyAgrees
ACTION_CONSTRAINT PrintExprs
CHECK_DEADLOCK FALSE
