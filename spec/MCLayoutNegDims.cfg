SPECIFICATION Spec
CONSTANTS
  Descriptions <- Plain
  MaxVal = 1
  Fault = "dims"
INVARIANTS Represents Unique KeysInjective SlotBijection
CHECK_DEADLOCK FALSE
