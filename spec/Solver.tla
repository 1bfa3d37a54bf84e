------------------------------- MODULE Solver -------------------------------
(* Systems of decision diagrams that share decisions.  A diagram is given by    *)
(* its path summaries [cost, dec] with dec over its own keys; pens[j][k][v] are  *)
(* the penalties of diagram j, extra[k][v] the additional unary costs of the     *)
(* system.  imap[k][j] is the position of system key k in diagram j (0: absent). *)
EXTENDS PackedDag
RECURSIVE SumSat(_)
SumSat(s) == IF s = <<>> THEN 0 ELSE Add(Head(s), SumSat(Tail(s)))
Abs(x) == IF x < 0 THEN -x ELSE x
Near(a, b, tol) == IF a >= INF \/ b >= INF THEN a >= INF /\ b >= INF ELSE Abs(a - b) <= tol
AtMost(a, b, tol) == b >= INF \/ (a < INF /\ a <= b + tol)

Bound(D, pens) == SumSat([j \in DOMAIN D |-> BestCost(D[j], pens[j])])
Joins(D, imap, j, k) == imap[k][j] > 0
(* aggregated marginals of system key k                                          *)
SysMarg(D, pens, imap, k, nv) ==
  LET parts == [j \in DOMAIN D |->
        IF Joins(D, imap, j, k) THEN Marginal(D[j], pens[j], imap[k][j], nv)
        ELSE LET b == BestCost(D[j], pens[j]) IN [v \in 1..nv |-> b]]
  IN [v \in 1..nv |-> SumSat([j \in DOMAIN D |-> parts[j][v]])]
(* a joint decision x: key -> value                                              *)
Follows(s, imap, j, x) == \A k \in DOMAIN x : imap[k][j] > 0 => s.dec[imap[k][j]] = x[k]
CostOf(D, imap, x) ==      \* true cost, without penalties
  SumSat([j \in DOMAIN D |-> MinOf({s.cost : s \in {t \in D[j] : Follows(t, imap, j, x)}})])
PenCostOf(D, pens, imap, x) ==
  SumSat([j \in DOMAIN D |-> MinOf({Penalised(s, pens[j]) : s \in {t \in D[j] : Follows(t, imap, j, x)}})])
Unary(extra, x) == SumSat([k \in DOMAIN x |-> extra[k][x[k]]])
Optimum(D, imap, extra, nk, nv) ==
  MinOf({Add(CostOf(D, imap, x), Unary(extra, x)) : x \in [1..nk -> 1..nv]})
PenTotal(D, pens, imap, k, v) ==
  SumSat([j \in DOMAIN D |-> IF imap[k][j] > 0 THEN pens[j][imap[k][j]][v] ELSE 0])
(* Reparametrisation: the penalties of a choice add up to its unary cost, unless *)
(* the choice is already impossible                                              *)
Balanced(D, pens, imap, extra, k, v, dead, tol) ==
  LET t == PenTotal(D, pens, imap, k, v) IN
  IF dead THEN t >= INF \/ Near(t, extra[k][v], tol) ELSE Near(t, extra[k][v], tol)
=============================================================================
