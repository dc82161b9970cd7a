SPECIFICATION Spec
CONSTANTS
  MaxLen = 2
  Deep = FALSE
INVARIANTS Sane Stable
CHECK_DEADLOCK FALSE
