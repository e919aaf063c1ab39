CONSTANTS
  Threads = {"a", "b"}
  MaxOps = 4
  Vals = {0, 1, 2}
  Bugs = {}
SPECIFICATION Spec
INVARIANT Linearizable
CHECK_DEADLOCK FALSE
