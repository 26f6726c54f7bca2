SPECIFICATION Spec
CONSTANT Depth = 9
CONSTANT Third = TRUE
INVARIANTS InvFractions InvElements InvOrder InvLocal
VIEW State
CHECK_DEADLOCK FALSE
