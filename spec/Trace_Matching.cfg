SPECIFICATION TSpec
INVARIANTS InvCorrected InvLeaves InvTidy InvSplit InvNeeded
CHECK_DEADLOCK FALSE
