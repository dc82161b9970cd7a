SPECIFICATION Spec
CONSTANT Source <- TheSource
INVARIANTS InOrder Answered
PROPERTY Everything
CHECK_DEADLOCK FALSE
