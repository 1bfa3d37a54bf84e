SPECIFICATION Spec
INVARIANT Invariants
CHECK_DEADLOCK FALSE
