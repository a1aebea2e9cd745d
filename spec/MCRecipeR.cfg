SPECIFICATION Spec
CONSTANTS
 Chars = {34, 92, 91, 93, 97, 58, 44}
 N = 10
 Prefix <- Open0
INVARIANTS Stable
