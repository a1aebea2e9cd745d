SPECIFICATION Spec
CONSTANT MaxSteps = 5
INVARIANTS Kept Own Alone
