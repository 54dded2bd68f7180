SPECIFICATION Spec
CONSTANT N = 2
INVARIANTS Latest Emit
PROPERTIES Frame Grows Facets
CHECK_DEADLOCK FALSE
