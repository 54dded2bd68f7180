SPECIFICATION Spec
CONSTANTS N = 2
  Careful = TRUE
INVARIANTS Preserved Emit
CHECK_DEADLOCK FALSE
