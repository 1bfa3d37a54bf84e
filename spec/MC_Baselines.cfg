SPECIFICATION Spec
INVARIANTS CoverIsOptimal CoverIsAttained CostIsOwnEdit Thresholds Fractions Stops ExitsAreDecisions
CHECK_DEADLOCK FALSE
