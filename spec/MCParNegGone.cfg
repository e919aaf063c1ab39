CONSTANTS
  Threads = {"a", "b"}
  MaxOps = 2
  Vals = {0, 1}
  Bugs = {"goneIsError"}
SPECIFICATION Spec
INVARIANT Linearizable
CHECK_DEADLOCK FALSE
