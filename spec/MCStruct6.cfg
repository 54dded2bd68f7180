SPECIFICATION Spec
CONSTANTS N = 6
INVARIANTS SameAsMap OrderOfFields NamesOnce Filled Emit
CHECK_DEADLOCK FALSE
