SPECIFICATION Spec
CONSTANTS Txns = {t1, t2, t3}
 Crashes = 2
 Archive = TRUE
INVARIANTS Durable OnlyCommitted GroupAtomic Openable Once Settled Faithful
CHECK_DEADLOCK FALSE
