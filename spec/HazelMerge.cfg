CONSTANTS
  Features = {0, 1, 2, 3, 4}
  MaxCrashes = 3
  MaxReopens = 2
SPECIFICATION Spec
INVARIANT WholeOrAbsent
INVARIANT SourcesSafe
INVARIANT Vouches
INVARIANT ListsMatch
PROPERTY GetsThere
CHECK_DEADLOCK FALSE
