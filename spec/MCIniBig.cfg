SPECIFICATION Spec
CONSTANT MaxLines = 5
INVARIANTS InvSections InvLookup
PROPERTIES Keeps
CHECK_DEADLOCK FALSE
