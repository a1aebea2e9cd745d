CONSTANTS
  None = None
  N = 3
  Size = 2
  Strict_ = FALSE
  Both = TRUE
SPECIFICATION Spec
INVARIANTS ViewsAnswer NowAnswers AddressesDisjoint InnermostOnly
PROPERTIES Steady Lasting
CHECK_DEADLOCK FALSE
