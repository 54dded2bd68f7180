SPECIFICATION Spec
CONSTANTS
 N = 3
 Shared = TRUE
INVARIANTS Independent Once
CHECK_DEADLOCK FALSE
