SPECIFICATION Spec
CONSTANT MaxPoints = 4
CONSTANT MaxRays = 4
INVARIANTS InvTable InvBeam InvRefused
CHECK_DEADLOCK FALSE
