SPECIFICATION Spec
CONSTANTS
  N = 4
  K = 1
  U = 60
  Depths = {1, 2, 3}
  Shares = {1, 2, 3}
INVARIANT SharesRank
INVARIANT Ranks
INVARIANT ScorePrefix
PROPERTY Ends
CHECK_DEADLOCK FALSE
