SPECIFICATION Spec
INVARIANTS OneGroupPerCall CallsAreText MarkersAreRight NoDefinitions KnownAreSeen AtMostOnce RulesAreDecisions RulesNest OwnTargetIsBest
CHECK_DEADLOCK FALSE
