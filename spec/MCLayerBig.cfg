SPECIFICATION Spec
CONSTANT Depth = 4
CONSTANT Wide = TRUE
INVARIANTS InvComp InvTrans
PROPERTIES Refusals OwnKept OwnHolds
VIEW State
CHECK_DEADLOCK FALSE
