SPECIFICATION Spec
CONSTANT N = 3
INVARIANTS ValidIffSet HoldsLast RoundTrip Emit
PROPERTY ErrKeeps
CHECK_DEADLOCK FALSE
