SPECIFICATION Spec
CONSTANTS N = 2
INVARIANTS Defined Transparent Freedom Emit
CHECK_DEADLOCK FALSE
