SPECIFICATION FairSpec
CONSTANTS Readers = {t1, t2}
 Reads = 2
 MaxMerges = 1
 MaxCommits = 1
 Initial <- MCInitial
 Added <- MCAdded
 Asks = {"a"}
 Flaw = "none"
INVARIANT AsAlone
INVARIANT Loads
PROPERTIES Stays Ends
CHECK_DEADLOCK FALSE
