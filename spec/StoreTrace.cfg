CONSTANT None = None
SPECIFICATION Spec
INVARIANT Accepted
INVARIANT AllDisjoint
POSTCONDITION Complete
CHECK_DEADLOCK FALSE
