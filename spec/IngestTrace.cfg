CONSTANTS
  Class <- TrClass
  Fold <- TrFold
SPECIFICATION ISpec
INVARIANT Accepted
POSTCONDITION Complete
CHECK_DEADLOCK FALSE
