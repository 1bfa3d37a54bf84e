------------------------------ MODULE Trace_Best ------------------------------
(* constrained best paths: real, obeying, optimal, honestly reported           *)
EXTENDS PackedDag, Judge
TClause(c) ==
  IF Raised(c) THEN "raised " \o c.out.exc ELSE
  LET E == c.in.dag.edges  PS == Paths(E, c.in.dag.init, c.in.dag.final)
      dec(p) == PathDec(E, p, Keys(E), c.in.missing)
      F == {p \in PS : \A j \in DOMAIN c.in.cons : dec(p)[c.in.cons[j][1]] = c.in.cons[j][2]}
      p == [j \in DOMAIN c.out.path |-> c.out.path[j] + 1] IN
  IF F = {} THEN ""       \* documented precondition: some path must exist
  ELSE IF p \notin PS THEN "not a start-to-end path"
  ELSE IF p \notin F THEN "required decisions not respected"
  ELSE IF PathCost(E, p) # MinOf({PathCost(E, r) : r \in F}) THEN "not the cheapest path"
  ELSE IF {<<c.out.dec[j][1], c.out.dec[j][2]>> : j \in DOMAIN c.out.dec} # {<<k, dec(p)[k]>> : k \in Keys(E)}
       THEN "reported decisions are not those of the path"
  ELSE IF Len(c.out.dec) # Cardinality(Keys(E)) THEN "number of reported decisions"
  ELSE ""
=============================================================================
