SPECIFICATION Spec
CONSTANTS
  MaxLen = 3
  Deep = FALSE
INVARIANTS SeqLaws
CHECK_DEADLOCK FALSE
