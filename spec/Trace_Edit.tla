------------------------------ MODULE Trace_Edit ------------------------------
EXTENDS Edit, Judge
TClause(c) ==
  IF Raised(c) THEN "raised " \o c.out.exc
  ELSE LET L == Listing(c.in.p)  M == Listing(c.in.t)
           exp == [k \in DOMAIN c.in.vs |-> EditCost(L, c.in.vs[k], M, c.in.pr)]
           B == {k \in DOMAIN exp : exp[k] # c.out.costs[k]} IN
  IF B = {} THEN ""
  ELSE LET k == MinSet(B) IN
    "vector " \o ToString(k) \o ": cheapest path " \o ToString(c.out.costs[k])
      \o ", cheapest script " \o ToString(exp[k])
=============================================================================
