SPECIFICATION Spec
INVARIANTS InvMemoryless InvVocab
