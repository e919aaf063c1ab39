CONSTANTS
  MaxN = 3
  MaxT = 5
  MaxW = 2
SPECIFICATION Spec
INVARIANT Bounded
ACTION_CONSTRAINT PrintEdges
VIEW View
CHECK_DEADLOCK FALSE
