SPECIFICATION Spec
CONSTANT Depth = 5
CONSTANT Third = FALSE
INVARIANTS InvFractions InvElements InvOrder InvLocal
VIEW State
CHECK_DEADLOCK FALSE
