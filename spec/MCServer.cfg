SPECIFICATION Spec
CONSTANTS
 N = 3
 Shared = FALSE
INVARIANTS Independent Once Emit
PROPERTY AllEnd
CHECK_DEADLOCK FALSE
