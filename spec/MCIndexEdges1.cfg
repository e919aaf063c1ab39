CONSTANTS
  MaxRank = 1
  MaxExt = 3
  Full = TRUE
  Dump = TRUE
  Bugs = {}
SPECIFICATION Spec
INVARIANTS AlgorithmAgrees InRange AssignRead Trailing RectifyAgrees
ACTION_CONSTRAINT PrintExprs
CHECK_DEADLOCK FALSE
