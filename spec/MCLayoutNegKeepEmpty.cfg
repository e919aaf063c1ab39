SPECIFICATION Spec
CONSTANTS
  Descriptions <- Shards
  MaxVal = 1
  Fault = "keepempty"
INVARIANTS Represents Unique KeysInjective SlotBijection
CHECK_DEADLOCK FALSE
