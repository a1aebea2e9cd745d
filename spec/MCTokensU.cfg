SPECIFICATION Spec
CONSTANTS
  Alphabet = {97, 65, 32, 10, 0, 195, 169, 137, 226, 152, 131, 240}
  Kinds = {"utf8"}
  N = 4
  Class <- MCClass
  Fold <- MCFold
INVARIANTS InOrder Suffixes Pieces
CHECK_DEADLOCK FALSE
