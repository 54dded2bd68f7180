SPECIFICATION Spec
CONSTANTS N = 4
INVARIANTS Frame Swap Emit
CHECK_DEADLOCK FALSE
