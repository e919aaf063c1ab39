SPECIFICATION Spec
CONSTANTS
  Descriptions <- QuickSet
  MaxVal = 1
  Fault = "none"
INVARIANTS Represents Unique KeysInjective SlotBijection
CHECK_DEADLOCK FALSE
