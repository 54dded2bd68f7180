SPECIFICATION Spec
CONSTANT N = 4
INVARIANTS LookupIsLatest FirstSuccessfulUse OnlyReferences Emit
PROPERTY Sticky
CHECK_DEADLOCK FALSE
