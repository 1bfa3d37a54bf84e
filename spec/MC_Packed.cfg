SPECIFICATION Spec
INVARIANTS Inv
