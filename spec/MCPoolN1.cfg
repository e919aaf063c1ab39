CONSTANTS
  N = 1
  Programs <- ProgAll
  Waiters = {"x"}
  Bugs = {}
SPECIFICATION Spec
INVARIANTS Contract BusyOk
CHECK_DEADLOCK TRUE
