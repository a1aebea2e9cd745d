SPECIFICATION Spec
CONSTANTS
  Deep = 3
  Class <- MCClass
  Fold <- MCFold
INVARIANT Ok
CHECK_DEADLOCK FALSE
