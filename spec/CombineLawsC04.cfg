SPECIFICATION Spec
CONSTANTS
  MaxLen = 2
  Deep = FALSE
INVARIANTS LookLaws
CHECK_DEADLOCK FALSE
