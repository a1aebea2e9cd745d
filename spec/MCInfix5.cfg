CONSTANT N = 5
SPECIFICATION Spec
INVARIANT Refused OneName Brackets Reads Whole
CHECK_DEADLOCK FALSE
