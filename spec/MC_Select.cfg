SPECIFICATION Spec
INVARIANTS NeverCheaper Record
POSTCONDITION Post
