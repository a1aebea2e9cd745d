SPECIFICATION Spec
CONSTANTS
  Deep = 2
  Class <- MCClass
  Fold <- MCFold
INVARIANT Ok
CHECK_DEADLOCK FALSE
