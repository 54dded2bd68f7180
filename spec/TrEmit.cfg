SPECIFICATION Spec
CONSTANT MaxPiece = 1
VIEW View
CHECK_DEADLOCK FALSE
