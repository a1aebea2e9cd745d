CONSTANTS N = 5
 Foragers = {f1, f2, f3}
 Forgets = TRUE
SPECIFICATION Spec
INVARIANTS Exact Once
