CONSTANTS
  MaxRank = 2
  MaxExt = 2
  Full = FALSE
  Dump = FALSE
  Bugs = {"single"}
SPECIFICATION Spec
INVARIANTS AlgorithmAgrees InRange AssignRead Trailing RectifyAgrees
ACTION_CONSTRAINT PrintExprs
CHECK_DEADLOCK FALSE
