SPECIFICATION Spec
CONSTANTS
  Descriptions <- ThoroughSet
  MaxVal = 1
  Fault = "none"
INVARIANTS Represents Unique KeysInjective SlotBijection
CHECK_DEADLOCK FALSE
