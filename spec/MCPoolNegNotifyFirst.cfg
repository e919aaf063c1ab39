CONSTANTS
  N = 1
  Programs <- ProgTask
  Waiters = {}
  Bugs = {"notifyFirst"}
SPECIFICATION Spec
INVARIANTS Contract BusyOk
CHECK_DEADLOCK TRUE
