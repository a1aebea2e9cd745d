SPECIFICATION Spec
CONSTANTS
  Alphabet = {97, 66, 49, 32, 10, 60, 47, 62, 38, 59, 45, 0, 195}
  Kinds = {"ascii", "xml"}
  N = 4
  Class <- MCClass
  Fold <- MCFold
INVARIANTS InOrder Suffixes Pieces Known
CHECK_DEADLOCK FALSE
