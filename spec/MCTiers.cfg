SPECIFICATION Spec
CONSTANTS
  N = 3
  K = 1
  U = 6
  Depths = {1, 2, 3}
  Tiers = 2
INVARIANT TiersRank
INVARIANT Tiered
CHECK_DEADLOCK FALSE
