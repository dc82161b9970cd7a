SPECIFICATION Spec
CONSTANTS
  MaxLen = 1
  Deep = FALSE
INVARIANTS SeqLaws
CHECK_DEADLOCK FALSE
