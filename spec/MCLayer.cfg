SPECIFICATION Spec
CONSTANT Depth = 3
CONSTANT Wide = FALSE
INVARIANTS InvComp InvTrans
PROPERTIES Refusals OwnKept OwnHolds
VIEW State
CHECK_DEADLOCK FALSE
