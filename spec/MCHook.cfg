SPECIFICATION Spec
INVARIANTS SameAsMap NamesOnce Untouched Stored Again Emit
CHECK_DEADLOCK FALSE
