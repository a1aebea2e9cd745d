CONSTANTS N = 6
 Ranges = TRUE
 Clears = TRUE
SPECIFICATION Spec
INVARIANT Exact
CHECK_DEADLOCK FALSE
