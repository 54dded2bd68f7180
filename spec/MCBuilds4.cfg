SPECIFICATION Spec
CONSTANTS N = 4
INVARIANTS BuilderFree Emit
PROPERTIES Stable
CHECK_DEADLOCK FALSE
