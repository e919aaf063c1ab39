CONSTANTS
  MaxRank = 2
  MaxExt = 3
  Full = TRUE
  Dump = FALSE
  Bugs = {}
SPECIFICATION Spec
INVARIANTS AlgorithmAgrees InRange AssignRead Trailing RectifyAgrees
ACTION_CONSTRAINT PrintExprs
CHECK_DEADLOCK FALSE
