CONSTANTS
  Class <- TrClass
  Fold <- TrFold
SPECIFICATION Spec
INVARIANT Accepted
POSTCONDITION Complete
CHECK_DEADLOCK FALSE
