SPECIFICATION Spec
CONSTANTS
  MaxLen = 2
  Deep = FALSE
INVARIANTS RepeatLaws
CHECK_DEADLOCK FALSE
