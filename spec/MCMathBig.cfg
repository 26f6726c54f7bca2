SPECIFICATION Spec
CONSTANT Grid = "big"
INVARIANTS InvE InvL InvX
CHECK_DEADLOCK FALSE
