SPECIFICATION Spec
CONSTANTS
  MaxLen = 3
  Deep = FALSE
INVARIANTS LabelLaws
CHECK_DEADLOCK FALSE
