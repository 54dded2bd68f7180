SPECIFICATION Spec
CONSTANTS N = 0
L = 9
Named = "all"
MaxPiece = 4
INVARIANT Contract
CHECK_DEADLOCK FALSE
