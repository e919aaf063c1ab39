CONSTANTS
  N = 2
  Programs <- ProgLoop
  Waiters = {}
  Bugs = {"rethrowFirst"}
SPECIFICATION Spec
INVARIANTS Contract BusyOk
CHECK_DEADLOCK TRUE
