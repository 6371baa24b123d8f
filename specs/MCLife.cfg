SPECIFICATION LSpec
INVARIANTS Local PairsAreTheSpec
CHECK_DEADLOCK FALSE
