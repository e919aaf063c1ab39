CONSTANTS
  MaxRank = 1
  MaxExt = 3
  Full = TRUE
  Dump = FALSE
  Bugs = {"strict"}
SPECIFICATION Spec
INVARIANTS AlgorithmAgrees InRange AssignRead Trailing RectifyAgrees
ACTION_CONSTRAINT PrintExprs
CHECK_DEADLOCK FALSE
