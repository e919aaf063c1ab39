CONSTANTS
  N = 2
  Programs <- ProgLoop
  Waiters = {}
  Bugs = {"wakeOneAtStop"}
SPECIFICATION Spec
INVARIANTS Contract BusyOk
CHECK_DEADLOCK TRUE
