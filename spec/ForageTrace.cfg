CONSTANTS
  Class <- TrClass
  Fold <- TrFold
SPECIFICATION FSpec
INVARIANT Accepted
POSTCONDITION Complete
CHECK_DEADLOCK FALSE
