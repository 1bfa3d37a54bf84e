------------------------------ MODULE Trace_Dag ------------------------------
EXTENDS Dag, Judge
RECURSIVE Build(_, _, _, _)
(* every attempt is accepted iff the order allows it, else ValueError and no change *)
Build(A, r, i, E) ==
  IF i > Len(A) THEN [why |-> "", E |-> E]
  ELSE IF MayAdd(E, A[i])
       THEN IF r[i] = "ok" THEN Build(A, r, i + 1, Append(E, A[i]))
            ELSE [why |-> "admissible edge refused with " \o r[i], E |-> E]
       ELSE IF r[i] = "ValueError" THEN Build(A, r, i + 1, E)
            ELSE [why |-> "inadmissible edge: " \o r[i] \o " instead of ValueError", E |-> E]
Builder(c) ==
  LET b == Build(c.in.edges, c.out.res, 1, <<>>)
      j == Build(c.in.edges, c.out.jres, 1, <<>>) IN
  IF b.why # "" THEN b.why
  ELSE IF c.out.edges # b.E THEN "edges of the finished diagram"
  ELSE IF j.why # "" THEN "checked kernel: " \o j.why
  ELSE IF c.out.jedges # j.E THEN "edges of the finished diagram (checked kernel)"
  ELSE IF c.out.uedges # c.in.edges THEN "unchecked kernel must append every edge"
  ELSE IF c.out.finish # <<c.in.init, c.in.final>> THEN "start/end of the finished diagram"
  ELSE IF c.out.stripped # b.E THEN "stripping tracebacks must give back the edges"
  ELSE IF \E i \in DOMAIN c.out.traced : c.out.traced[i] # TRUE THEN "traceback missing"
  ELSE IF c.out.after # FALSE THEN "tracebacks stay on"
  ELSE ""
Pruned(c) ==
  LET E == c.in.edges  i == c.in.init  f == c.in.final  P == Prune(E, i, f)
      U == Useful(E, i, f) IN
  IF c.out.prune # P THEN "pruned edges"
  ELSE IF c.out.pruneends # <<i, f>> THEN "start/end after pruning"
  ELSE IF c.out.jprune # P THEN "pruned edges (kernel)"
  ELSE IF c.out.jjprune # P THEN "pruned edges (jit alias)"
  ELSE IF {c.out.reach[k] : k \in DOMAIN c.out.reach} # U THEN "reachable states"
  ELSE IF c.out.states # FirstAppearance(E) THEN "state list"
  ELSE IF c.out.untouched # TRUE THEN "input was modified"
  ELSE IF \E k \in DOMAIN c.out.rw : LET r == c.out.rw[k] IN
       IF HasPath(E, i, f)
       THEN ~(r.ok /\ Len(r.edges) = Len(P) /\ IsRenaming(P, i, f, r.edges, r.init, r.final))
       ELSE ~(~r.ok /\ r.exc = "ValueError")
       THEN "rewritten diagram"
  ELSE ""
TClause(c) == IF Raised(c) THEN "raised " \o c.out.exc
              ELSE IF c.in.kind = "build" THEN Builder(c) ELSE Pruned(c)
=============================================================================
