SPECIFICATION Spec
CONSTANT MaxSteps = 7
INVARIANTS Kept Own Alone
