CONSTANTS
  N = 3
  Programs <- ProgTask
  Waiters = {"x"}
  Bugs = {}
SPECIFICATION Spec
INVARIANTS Contract BusyOk
CHECK_DEADLOCK TRUE
