--------------------------- MODULE Trace_Constraint ---------------------------
(* The decision vectors a constraint diagram accepts are exactly the           *)
(* well-formed ones, before and after packing, all at cost zero.               *)
EXTENDS Regions, Judge
D == INSTANCE Dag
Cat(k) == CASE k = "RS" -> 0 [] k = "RE" -> 1 [] k = "EE" -> 3 [] OTHER -> 2
NodeKeys(L) == {(x - 1) * 4 + Cat(L[x].k) : x \in {y \in DOMAIN L : Deciding(L[y].k)}}
\* the decision vectors of all paths
Vectors(d, L) ==
  LET P == D!Paths(d.edges, d.init, d.final) IN
  {[x \in DOMAIN L |-> IF Deciding(L[x].k)
                       THEN D!PathDec(d.edges, p, {(x - 1) * 4 + Cat(L[x].k)}, NA)[(x - 1) * 4 + Cat(L[x].k)]
                       ELSE NA] : p \in P}
Side(d, L, W) ==
  IF ~(D!Keys(d.edges) \subseteq NodeKeys(L)) THEN "decision about a node that has none"
  ELSE IF \E i \in DOMAIN d.edges : D!Cost(d.edges[i]) # 0 THEN "constraints cost something"
  ELSE LET V == Vectors(d, L) IN
    IF \E v \in V : v \notin W THEN "accepts an ill-formed annotation"
    ELSE IF \E v \in W : v \notin V THEN "rejects a well-formed annotation"
    ELSE ""
TClause(c) ==
  IF Raised(c) THEN "raised " \o c.out.exc
  ELSE LET L == Listing(c.in.tree)
           W == WellFormedSet(L)
           a == Side(c.out.raw, L, W)
           b == Side(c.out.packed, L, W) IN
    IF a # "" THEN a ELSE IF b # "" THEN b \o " (packed)" ELSE ""
=============================================================================
