SPECIFICATION HSpec
CONSTANTS N = 2
L = 0
Named = "none"
MaxPiece = 1
INVARIANTS KeyLaw VarLaw HEmit
CHECK_DEADLOCK FALSE
