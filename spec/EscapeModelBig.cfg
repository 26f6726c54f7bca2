SPECIFICATION Spec
CONSTANT Requests = {"a", "b", "c"}
CONSTANT Energies = {1, 2}
CONSTANT Versions = 1
CONSTANT MaxOps = 4
INVARIANTS Transparent OneKind
CHECK_DEADLOCK FALSE
