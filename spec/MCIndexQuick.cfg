CONSTANTS
  MaxRank = 3
  MaxExt = 3
  Full = FALSE
  Dump = FALSE
  Bugs = {}
SPECIFICATION Spec
INVARIANTS AlgorithmAgrees InRange AssignRead Trailing RectifyAgrees
ACTION_CONSTRAINT PrintExprs
CHECK_DEADLOCK FALSE
