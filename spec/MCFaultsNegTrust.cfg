SPECIFICATION Spec
CONSTANTS
  Objs = {1, 2}
  Slots = {1, 2}
  Vals = {0, 1, 2}
  InPlace = FALSE
  Trust = TRUE
  Swallow = FALSE
  MaxOps = 3
INVARIANTS Readable Allowed NotTrusted
CHECK_DEADLOCK FALSE
