SPECIFICATION Spec
CONSTANT N = 5
INVARIANTS Sound Laws
CHECK_DEADLOCK FALSE
