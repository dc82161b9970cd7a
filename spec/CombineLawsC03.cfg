SPECIFICATION Spec
CONSTANTS
  MaxLen = 1
  Deep = FALSE
INVARIANTS ChoiceLaws
CHECK_DEADLOCK FALSE
