SPECIFICATION Spec
CONSTANT N = 3
INVARIANT Rewrite
CHECK_DEADLOCK FALSE
