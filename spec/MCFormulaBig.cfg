SPECIFICATION Spec
CONSTANT MaxPieces = 6
CONSTANT Pieces = {"H", "Fe", "2", ".5", "(", ")", "x", " "}
INVARIANTS InvPositive InvGroup InvSum InvNames
CHECK_DEADLOCK FALSE
