SPECIFICATION Spec
CONSTANTS
  MaxLen = 3
  Deep = FALSE
INVARIANTS Sane Stable
CHECK_DEADLOCK FALSE
