SPECIFICATION Spec
CONSTANTS
  MaxLen = 3
  Deep = FALSE
INVARIANTS ChoiceLaws
CHECK_DEADLOCK FALSE
