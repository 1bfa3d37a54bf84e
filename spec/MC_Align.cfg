SPECIFICATION Spec
INVARIANTS InvText InvScore
