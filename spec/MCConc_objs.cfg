SPECIFICATION Spec
CONSTANT Family = "objs"
INVARIANTS Regular Agree Fits Counts Seen Judged Emit
CHECK_DEADLOCK FALSE
