SPECIFICATION Spec
CONSTANTS N = 2
  Careful = FALSE
INVARIANTS Preserved
CHECK_DEADLOCK FALSE
