SPECIFICATION Spec
CONSTANTS N = 3
INVARIANTS BuilderFree Emit
PROPERTIES Stable
CHECK_DEADLOCK FALSE
