SPECIFICATION Spec
CONSTANT N = 3
INVARIANTS Sound Laws
CHECK_DEADLOCK FALSE
