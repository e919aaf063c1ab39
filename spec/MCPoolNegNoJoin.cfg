CONSTANTS
  N = 1
  Programs <- ProgTask
  Waiters = {}
  Bugs = {"noJoin"}
SPECIFICATION Spec
INVARIANTS Contract BusyOk
CHECK_DEADLOCK TRUE
