--------------------------- MODULE Trace_Baselines ---------------------------
(* Recorded baseline annotations against their rules.                          *)
EXTENDS Baselines, Costs, Edit, Judge
Join(L) == AllText([x \in DOMAIN L |-> <<IF L[x].k \in {"TOK", "DEC"} THEN L[x].txt ELSE <<>>, 0>>])
RECURSIVE FirstBad(_, _)
FirstBad(f(_), s) == IF s = <<>> THEN "" ELSE LET a == f(Head(s)) IN IF a # "" THEN a ELSE FirstBad(f, Tail(s))
\* region baselines: <<name, wanted tokens>>
RegionRule(L, sc, q) ==
  CASE q.rule = "token" -> WantToken(L, sc, q.a)
    [] q.rule = "cumulative" -> WantCumulative(L, sc, q.a)
    [] q.rule = "token-all" -> WantTokenAll(L, sc, q.a)
    [] q.rule = "cumulative-all" -> WantCumulativeAll(L, sc, q.a)
    [] q.rule = "offset" -> WantOffset(L, q.a)
    [] q.rule = "fraction" -> WantFraction(L, q.a, q.b)
    [] q.rule = "depth" -> WantDepth(L, q.a, q.b)
ExitRule(L, sc, q) ==
  CASE q.rule = "token" -> StopToken(L, sc, q.a)
    [] q.rule = "prefix" -> StopPrefix(L, sc, q.a)
    [] q.rule = "intellicode" -> StopIntellicode(L, sc)
    [] q.rule = "average" -> StopAverage(L, sc)
    [] q.rule = "chars" -> StopChars(L, q.a)
    [] q.rule = "lines" -> StopLines(L, q.a)
Regional(L, M, sc, pr, q) ==
  LET W == RegionRule(L, sc, q) IN
  IF ~WellFormed(L, q.v) THEN "the decisions are not well formed"
  ELSE IF Chars(q.parts) # Chars(Pieces(L, q.v, <<>>)) THEN "extracted parts"
  ELSE IF EditCost(L, q.v, M, pr) + Miss * Cardinality({x \in W : q.v[x] # T}) # CostNumber(L, q.v, W, pr)
       THEN "cost of the suggestion as its own target"
  ELSE IF CostNumber(L, q.v, W, pr) # CheapestCover(L, W, pr)
       THEN "not the cheapest cover of " \o ToString(W)
  ELSE ""
Exiting(L, sc, q) ==
  LET e == ExitRule(L, sc, q)  v == ExitVector(L, e) IN
  IF q.v # v THEN "exit at " \o ToString(MinOr0({x \in DOMAIN L : q.v[x] = T})) \o ", rule says " \o ToString(e)
  ELSE IF Chars(q.parts) # Chars(Pieces(L, v, <<>>)) THEN "extracted parts"
  ELSE ""
TClause(c) ==
  LET i == c.in  o == c.out IN
  IF Raised(c) THEN IF i.bad /\ o.exc = "ValueError" THEN "" ELSE "raised " \o o.exc
  ELSE IF i.bad THEN "bad depth cutoffs are accepted"
  ELSE IF i.w.w = "both" THEN (IF o.names = 0 THEN "" ELSE "baselines for regions and exits together")
  ELSE LET L == Listing(o.prototype)  M == Listing(o.target)
           sc == Scores(L, o.model)
           pr == Derived(i.w.P, i.w.S, i.w.C, i.w.D)
           one(q) == LET why == IF i.w.w = "unc" THEN Regional(L, M, sc, pr, q) ELSE Exiting(L, sc, q)
                     IN IF why = "" THEN "" ELSE q.rule \o " " \o ToString(q.a) \o ": " \o why IN
  IF Join(L) # AllText(o.model) THEN "text of the prototype"
  ELSE IF o.names # Len(o.results) THEN "number of baselines"
  ELSE FirstBad(one, o.results)
=============================================================================
