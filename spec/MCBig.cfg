SPECIFICATION Spec
CONSTANTS M = 130 F = 2 P = 3
INVARIANTS Order Whole Divides Rounds Monotone
CHECK_DEADLOCK FALSE
