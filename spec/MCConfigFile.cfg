SPECIFICATION Spec
CONSTANT MaxBlocks = 3
CONSTANT Blocks = {"fit", "fit2", "matrix", "layers", "multi", "alloy", "gas", "conc", "foil", "cap"}
INVARIANTS InvOrder InvFresh InvBeam InvUsed
PROPERTY Frame
CHECK_DEADLOCK FALSE
