SPECIFICATION Spec
CONSTANTS
  MaxLen = 3
  Deep = FALSE
INVARIANTS RepeatLaws
CHECK_DEADLOCK FALSE
