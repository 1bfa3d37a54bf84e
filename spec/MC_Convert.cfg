SPECIFICATION Spec
INVARIANTS InvLossless InvNonEmpty InvPure
