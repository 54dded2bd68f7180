SPECIFICATION Spec
CONSTANTS N = 3
INVARIANTS Frame Swap Emit
CHECK_DEADLOCK FALSE
