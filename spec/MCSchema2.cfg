SPECIFICATION Spec
CONSTANTS N = 2
INVARIANTS Compiles Conjunction Monotone Emit
CHECK_DEADLOCK FALSE
