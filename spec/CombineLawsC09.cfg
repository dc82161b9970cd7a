SPECIFICATION Spec
CONSTANTS
  MaxLen = 2
  Deep = FALSE
INVARIANTS LabelLaws
CHECK_DEADLOCK FALSE
