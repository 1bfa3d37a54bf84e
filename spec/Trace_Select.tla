----------------------------- MODULE Trace_Select -----------------------------
EXTENDS Select, Judge
TClause(c) ==
  IF Raised(c) THEN "raised " \o c.out.exc
  ELSE LET L == Listing(c.in.p)  M == Listing(c.in.t)
           exp == [k \in DOMAIN c.in.vs |-> SelectCost(c.in.p, L, c.in.vs[k], c.in.t, M, c.in.pr)]
           B == {k \in DOMAIN exp : exp[k] # c.out.costs[k]} IN
  IF B = {} THEN ""
  ELSE LET k == MinSet(B) IN
    "vector " \o ToString(k) \o ": cheapest path " \o ToString(c.out.costs[k])
      \o ", best selection value " \o ToString(exp[k])
=============================================================================
