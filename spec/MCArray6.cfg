SPECIFICATION Spec
CONSTANT M = 6
INVARIANT Right
CHECK_DEADLOCK FALSE
