SPECIFICATION Spec
CONSTANT M = 9
INVARIANT Right
CHECK_DEADLOCK FALSE
