SPECIFICATION Spec
CONSTANT MaxLines = 5
INVARIANTS InvScans InvBlank InvValues
PROPERTIES Stable StableClosed
CHECK_DEADLOCK FALSE
