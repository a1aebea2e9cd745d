SPECIFICATION Spec
CONSTANT M = 11
INVARIANT Right
CHECK_DEADLOCK FALSE
