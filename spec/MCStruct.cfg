SPECIFICATION Spec
CONSTANTS N = 4
INVARIANTS SameAsMap OrderOfFields NamesOnce Filled Emit
CHECK_DEADLOCK FALSE
