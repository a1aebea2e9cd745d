CONSTANTS
  None = None
  N = 3
  Size = 2
  Strict_ = FALSE
  Both = FALSE
SPECIFICATION Spec
INVARIANTS ViewsAnswer NowAnswers AddressesDisjoint InnermostOnly
PROPERTIES Steady Lasting
CHECK_DEADLOCK FALSE
