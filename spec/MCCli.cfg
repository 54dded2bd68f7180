SPECIFICATION Spec
INVARIANTS Allowed Decided Emit
PROPERTY Ends
CHECK_DEADLOCK FALSE
