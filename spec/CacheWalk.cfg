SPECIFICATION WSpec
CONSTANTS Readers = {0, 1, 2}
 Reads = 3
 MaxMerges = 1
 MaxCommits = 1
 Initial <- MCInitial3
 Added <- MCAdded
 Asks = {"a", "b", "text"}
 Flaw = "none"
INVARIANT AsAlone
INVARIANT Loads
INVARIANT Emit
CHECK_DEADLOCK FALSE
