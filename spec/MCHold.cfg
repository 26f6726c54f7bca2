SPECIFICATION Spec
CONSTANT Depth = 4
CONSTANT Wide = FALSE
INVARIANTS InvReference InvBeam
PROPERTIES Frame Kept
VIEW State
CHECK_DEADLOCK FALSE
