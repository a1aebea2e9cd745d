SPECIFICATION Spec
CONSTANTS
 Chars = {34, 92, 91, 93, 10, 97, 58, 110}
 N = 5
 Prefix <- None0
INVARIANTS ValueOk Stable
