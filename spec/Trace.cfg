SPECIFICATION Spec
VIEW Position
CHECK_DEADLOCK FALSE
