SPECIFICATION MCSpec
INVARIANTS InvCorrected InvLeaves InvTidy InvSplit InvNeeded InvProgress
CHECK_DEADLOCK FALSE
