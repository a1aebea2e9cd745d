SPECIFICATION Spec
CONSTANTS
  N = 4
  K = 1
  U = 12
  Depths = {1, 2, 3}
  Tiers = 2
INVARIANT TiersRank
INVARIANT Tiered
CHECK_DEADLOCK FALSE
