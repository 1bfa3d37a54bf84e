---------------------------- MODULE Trace_Sessions ----------------------------
(* Recorded sessions, one call per step.                                        *)
EXTENDS Sessions, Judge
RECURSIVE Step(_, _, _)
Step(F, log, k) ==
  IF k > Len(log) THEN ""
  ELSE IF log[k][2] # F[log[k][1]] THEN "call " \o ToString(k) \o " is answered differently than alone"
  ELSE IF ~Faithful(F, log[k]) THEN "call " \o ToString(k) \o " changes its arguments"
  ELSE Step(F, log, k + 1)
TClause(c) ==
  IF Raised(c) THEN "raised " \o c.out.exc
  ELSE IF Len(c.out.log) # Len(c.in.order) \/ Len(c.out.fresh) # Len(c.in.calls) THEN "calls without an answer"
  ELSE IF \E k \in DOMAIN c.out.fresh : c.out.fresh[k] = -1 THEN "a process died"
  ELSE Step(c.out.fresh, c.out.log, 1)
=============================================================================
