SPECIFICATION Spec
INVARIANTS LinesConnect ViewIsUnion ElbowsStayInside BoxesApart
CHECK_DEADLOCK FALSE
