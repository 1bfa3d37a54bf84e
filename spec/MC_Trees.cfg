SPECIFICATION Spec
INVARIANTS InvText InvStripInserted InvFlat InvCut InvSingle InvWalk
