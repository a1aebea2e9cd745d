SPECIFICATION Spec
CONSTANTS
  MaxLines = 3
  MaxWorkers = 3
  Class <- MCClass
  Fold <- MCFold
INVARIANT AllOrNothing
INVARIANT Once
PROPERTY Ends
CHECK_DEADLOCK FALSE
