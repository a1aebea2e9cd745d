CONSTANTS N = 6
 Ranges = FALSE
 Clears = TRUE
SPECIFICATION Spec
INVARIANT Exact
CHECK_DEADLOCK FALSE
