------------------------------ MODULE MC_Solver ------------------------------
(* Design model: min-marginal averaging in exact (dyadic) arithmetic on every    *)
(* pair of cost functions over NK binary decisions with costs from a small set.   *)
EXTENDS Solver, IOUtils
NK == atoi(IOEnv.NK)
L == atoi(IOEnv.MAXLEN)
UNIT == 2 ^ L
CostSet == IF IOEnv.COSTS = "small" THEN {0, 3, -1} ELSE {0, 1, 3, -1}   \* -1: impossible
VARIABLES f, pens, bound, steps, opt
vars == <<f, pens, bound, steps, opt>>
X == [1..NK -> 1..2]
D == [j \in 1..2 |-> {[cost |-> f[j][x] * UNIT, dec |-> x] : x \in {y \in X : f[j][y] >= 0}}]
Imap == [k \in 1..NK |-> <<k, k>>]
Zero == [k \in 1..NK |-> <<0, 0>>]
Init == /\ f \in [1..2 -> [X -> CostSet]]
        /\ pens = <<Zero, Zero>> /\ steps = 0
        /\ bound = Bound(D, pens)
        /\ opt = Optimum(D, Imap, Zero, NK, 2)
Avg(k) ==
  LET z == [j \in 1..2 |-> [pens[j] EXCEPT ![k] = <<0, 0>>]]
      m == [j \in 1..2 |-> Marginal(D[j], z[j], k, 2)]
      tot == [v \in 1..2 |-> Add(m[1][v], m[2][v])]
  IN /\ pens' = [j \in 1..2 |-> [pens[j] EXCEPT ![k] =
                   [v \in 1..2 |-> IF tot[v] >= INF THEN INF ELSE tot[v] \div 2 - m[j][v]]]]
     /\ bound' = MinOf({tot[1], tot[2]})
     /\ steps' = steps + 1 /\ UNCHANGED <<f, opt>>
Next == steps < L /\ \E k \in 1..NK : Avg(k)
Spec == Init /\ [][Next]_vars
Monotone == [][bound' >= bound]_vars
Greedy == \* decode in order; its true cost can only be above the bound
  LET RECURSIVE go(_, _, _)
      go(k, x, p) == IF k > NK THEN x
        ELSE LET mm == SysMarg(D, p, Imap, k, 2)
                 c == IF mm[1] <= mm[2] THEN 1 ELSE 2
                 blk(row) == [row EXCEPT ![3 - c] = INF]
             IN go(k + 1, Append(x, c), [j \in 1..2 |-> [p[j] EXCEPT ![k] = blk(@)]])
  IN go(1, <<>>, pens)
Inv == /\ bound = Bound(D, pens)
       /\ bound <= opt
       /\ \A k \in 1..NK, v \in 1..2 : LET t == PenTotal(D, pens, Imap, k, v) IN t = 0 \/ t >= INF
       /\ \A x \in X : LET c == CostOf(D, Imap, x) IN PenCostOf(D, pens, Imap, x) = c
       /\ CostOf(D, Imap, Greedy) >= bound
=============================================================================
