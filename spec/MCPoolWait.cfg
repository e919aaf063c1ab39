CONSTANTS
  N = 2
  Programs <- ProgTask
  Waiters = {"x", "y"}
  Bugs = {}
SPECIFICATION Spec
INVARIANTS Contract BusyOk
CHECK_DEADLOCK TRUE
