SPECIFICATION Spec
CONSTANT N = 4
INVARIANTS Sound Laws
CHECK_DEADLOCK FALSE
