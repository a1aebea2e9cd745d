SPECIFICATION Spec
CONSTANTS Readers = {t1, t2, t3}
 Reads = 1
 MaxMerges = 1
 MaxCommits = 1
 Initial <- MCInitial
 Added <- MCAdded
 Asks = {"a", "b", "text"}
 Flaw = "none"
INVARIANT AsAlone
INVARIANT Loads
PROPERTIES Stays
CHECK_DEADLOCK FALSE
