CONSTANTS
  None = None
  Class <- TrClass
  Fold <- TrFold
SPECIFICATION TSpec
INVARIANT Accepted
INVARIANT AllDisjoint
POSTCONDITION Complete
CHECK_DEADLOCK FALSE
