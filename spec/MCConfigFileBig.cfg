SPECIFICATION Spec
CONSTANT MaxBlocks = 3
CONSTANT Blocks = {"fit", "fit2", "Fit", "result", "matrix", "layers", "idle", "multi", "alloy", "gas", "conc", "conc2", "badconc", "foil", "cap", "spare"}
INVARIANTS InvOrder InvFresh InvBeam InvUsed
PROPERTY Frame
CHECK_DEADLOCK FALSE
