SPECIFICATION Spec
CONSTANTS N = 3
INVARIANTS Compiles Conjunction Monotone Emit
CHECK_DEADLOCK FALSE
