SPECIFICATION Spec
CONSTANT Grid = "small"
INVARIANTS InvE InvL InvX
CHECK_DEADLOCK FALSE
