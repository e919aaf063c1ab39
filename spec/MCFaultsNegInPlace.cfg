SPECIFICATION Spec
CONSTANTS
  Objs = {1, 2}
  Slots = {1, 2}
  Vals = {0, 1, 2}
  InPlace = TRUE
  Trust = FALSE
  Swallow = FALSE
  MaxOps = 2
INVARIANTS Readable Allowed NotTrusted
CHECK_DEADLOCK FALSE
