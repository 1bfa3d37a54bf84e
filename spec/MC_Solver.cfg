SPECIFICATION Spec
INVARIANT Inv
PROPERTY Monotone
CHECK_DEADLOCK FALSE
