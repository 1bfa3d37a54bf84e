------------------------------ MODULE MC_Costs ------------------------------
(* The derived amounts are the only solution and realise the break-even rule. *)
EXTENDS Costs
CONSTANTS Ds, Cs, Ns
VARIABLES D, P, S, C, n
Init == /\ D \in Ds /\ P \in 0..D /\ S \in 0..D /\ C \in Cs /\ n \in Ns
Next == UNCHANGED <<D, P, S, C, n>>
Spec == Init /\ [][Next]_<<D, P, S, C, n>>
X == Derived(P, S, C, D)
InvSolves == Solves(X, P, S, C, D)
InvBreakEven == BreakEven(X, n, P, S, C, D)
InvOrdered == Ordered(X, n)
\* moving any derived amount by one unit is noticed
InvUnique == \A f \in {"lm", "ld", "ls", "reg"}, d \in {-1, 1} :
  ~Solves([X EXCEPT ![f] = @ + d], P, S, C, D)
InvCall == CallBreakEven(CallFound(n, P, D), CallWrong(n, P, D), n, P, D)
=============================================================================
