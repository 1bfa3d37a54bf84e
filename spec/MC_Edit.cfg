SPECIFICATION Spec
INVARIANTS NeverCheaper Record WorkedOutOnce
POSTCONDITION Post
