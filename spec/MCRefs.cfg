SPECIFICATION Spec
CONSTANT N = 3
INVARIANTS LookupIsLatest FirstSuccessfulUse OnlyReferences Emit
PROPERTY Sticky
CHECK_DEADLOCK FALSE
