SPECIFICATION Spec
CONSTANTS
  MaxLines = 5
  MaxWorkers = 4
  Class <- MCClass
  Fold <- MCFold
INVARIANT AllOrNothing
INVARIANT Once

CHECK_DEADLOCK FALSE
