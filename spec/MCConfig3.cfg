SPECIFICATION Spec
CONSTANT N = 3
INVARIANTS Latest Emit
PROPERTIES Frame Grows Facets
CHECK_DEADLOCK FALSE
