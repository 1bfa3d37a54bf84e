SPECIFICATION Spec
INVARIANTS Agree ShowsPrefix
