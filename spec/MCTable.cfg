SPECIFICATION Spec
CONSTANT MaxPoints = 3
CONSTANT MaxRays = 3
INVARIANTS InvTable InvBeam InvRefused
CHECK_DEADLOCK FALSE
