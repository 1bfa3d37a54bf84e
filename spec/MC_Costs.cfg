SPECIFICATION Spec
CONSTANTS Ds = {1, 4, 7, 10} Cs = {0, 1, 5} Ns = {0, 1, 2, 7}
INVARIANTS InvSolves InvBreakEven InvOrdered InvUnique InvCall
