SPECIFICATION Spec
CONSTANT Requests = {"a", "b"}
CONSTANT Energies = {1, 2}
CONSTANT Versions = 1
CONSTANT MaxOps = 3
INVARIANTS Transparent OneKind
CHECK_DEADLOCK FALSE
