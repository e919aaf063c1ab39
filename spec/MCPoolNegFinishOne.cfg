CONSTANTS
  N = 1
  Programs <- ProgTask
  Waiters = {"x", "y"}
  Bugs = {"finishOne"}
SPECIFICATION Spec
INVARIANTS Contract BusyOk
CHECK_DEADLOCK TRUE
