SPECIFICATION Spec
CONSTANTS
  MaxLen = 3
  Deep = FALSE
INVARIANTS LookLaws
CHECK_DEADLOCK FALSE
