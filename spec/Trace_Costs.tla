----------------------------- MODULE Trace_Costs -----------------------------
EXTENDS Costs, Judge
TClause(c) ==
  LET i == c.in  o == c.out IN
  IF Raised(c) THEN "raised " \o o.exc
  ELSE CASE i.kind = "derive" ->
         IF Solves(o.x, i.P, i.S, i.C, i.D) THEN "" ELSE "costs do not solve the conditions"
    [] i.kind = "token" ->
         LET x == Derived(i.P, i.S, i.C, i.D) IN
         IF o.hr # HighRight(x, i.n) THEN "plain, right: " \o ToString(o.hr)
         ELSE IF o.hw # HighWrong(x, i.n) THEN "plain, wrong: " \o ToString(o.hw)
         ELSE IF o.lr # LowRight(x, i.n) THEN "in region, right: " \o ToString(o.lr)
         ELSE IF o.lw # LowWrong(x, i.n) THEN "in region, wrong: " \o ToString(o.lw)
         ELSE IF ~BreakEven(x, i.n, i.P, i.S, i.C, i.D) THEN "break-even" ELSE ""
    [] i.kind = "call" ->
         LET ws == [k \in DOMAIN i.kinds |-> Weight(i.kinds[k])]
             RECURSIVE sum(_)
             sum(k) == IF k = 0 THEN 0 ELSE ws[k] + sum(k - 1)
             w == sum(Len(ws)) IN
         IF o.found # CallFound(w, i.P, i.D) THEN "found call is worth " \o ToString(o.found)
         ELSE IF o.wrong # CallWrong(w, i.P, i.D) THEN "wrong call costs " \o ToString(o.wrong)
         ELSE IF ~CallBreakEven(o.found, o.wrong, w, i.P, i.D) THEN "break-even" ELSE ""
=============================================================================
