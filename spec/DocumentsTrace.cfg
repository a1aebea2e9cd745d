CONSTANTS
  None = None
  Class <- TrClass
  Fold <- TrFold
SPECIFICATION DSpec
INVARIANT Accepted
INVARIANT AllDisjoint
POSTCONDITION Complete
CHECK_DEADLOCK FALSE
