CONSTANTS
  Threads = {"a", "b", "c"}
  MaxOps = 2
  Vals = {0, 1}
  Bugs = {}
SPECIFICATION Spec
INVARIANT Linearizable
CHECK_DEADLOCK FALSE
