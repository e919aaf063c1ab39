CONSTANTS
  N = 3
  Programs <- ProgAll
  Waiters = {}
  Bugs = {}
SPECIFICATION Spec
INVARIANTS Contract BusyOk
CHECK_DEADLOCK TRUE
