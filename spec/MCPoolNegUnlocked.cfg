CONSTANTS
  N = 1
  Programs <- ProgTask
  Waiters = {"x"}
  Bugs = {"unlockedBusy"}
SPECIFICATION Spec
INVARIANTS Contract BusyOk
CHECK_DEADLOCK TRUE
