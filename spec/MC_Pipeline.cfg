SPECIFICATION Spec
INVARIANTS PlainIsWellFormed EveryDecisionHasACost AgreementIsOptimal NeverBetterThanPerfect NoRegionAtThresholdZero
CHECK_DEADLOCK FALSE
