SPECIFICATION Spec
CONSTANT MaxLines = 4
INVARIANTS InvScans InvBlank InvValues
PROPERTIES Stable StableClosed
CHECK_DEADLOCK FALSE
