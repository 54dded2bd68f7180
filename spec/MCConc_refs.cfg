SPECIFICATION Spec
CONSTANT Family = "refs"
INVARIANTS Regular Agree Fits Counts Seen Judged Emit
CHECK_DEADLOCK FALSE
