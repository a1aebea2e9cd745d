CONSTANTS N = 4
 Foragers = {f1, f2}
 Forgets = TRUE
SPECIFICATION Spec
INVARIANTS Exact Once
