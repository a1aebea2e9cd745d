CONSTANTS
  None = None
  Class <- TrClass
  Fold <- TrFold
SPECIFICATION TSpec
INVARIANT Accepted
POSTCONDITION Complete
CHECK_DEADLOCK FALSE
