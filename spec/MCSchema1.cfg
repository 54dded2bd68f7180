SPECIFICATION Spec
CONSTANTS N = 1
INVARIANTS Compiles Conjunction Monotone Emit
CHECK_DEADLOCK FALSE
