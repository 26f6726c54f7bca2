SPECIFICATION Spec
CONSTANT MaxLines = 4
INVARIANTS InvSections InvLookup
PROPERTIES Keeps
CHECK_DEADLOCK FALSE
