SPECIFICATION Spec
CONSTANT Requests = {"a", "b", "c"}
CONSTANT Energies = {1, 2}
CONSTANT Versions = 2
CONSTANT MaxOps = 9
VIEW Seen
INVARIANTS Transparent OneKind
CHECK_DEADLOCK FALSE
