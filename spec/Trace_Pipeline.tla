---------------------------- MODULE Trace_Pipeline ----------------------------
(* The whole pipeline for the edit-distance wrappers: what the optimiser is     *)
(* given, what it answers and what it claims about the answer.                  *)
EXTENDS Edit, Costs, Judge
Ellipsis == <<65049>>   \* shown for a region without text
Expected(kind, t, loc) ==
  LET a == IF kind \in {"unc", "both"} THEN RegionOptions(t, TRUE, "pseudo") ELSE t
      b == IF kind \in {"pre", "both"} THEN EarlyExits(a, TRUE, TRUE) ELSE a
  IN Cut(b, loc)
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
Dot(a, b) == SumSeq([k \in DOMAIN a |-> a[k] * b[k]])
Below(s, x) == Cardinality({k \in DOMAIN s : s[k] < x})
Sorted(s) == \A k \in 1..(Len(s) - 1) : s[k] <= s[k + 1]
Same(s, t) == Len(s) = Len(t) /\ \A x \in {s[k] : k \in DOMAIN s} \cup {t[k] : k \in DOMAIN t} :
  Cardinality({k \in DOMAIN s : s[k] = x}) = Cardinality({k \in DOMAIN t : t[k] = x})
RECURSIVE Joined(_)
Joined(ps) == IF ps = <<>> THEN <<>> ELSE Head(ps)[1] \o Joined(Tail(ps))
StartsWith(s, p) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
\* what is reported about decisions o.v (costs in 1/D^2)
Info(L, M, pr, o, n) ==
  LET exp == [k \in DOMAIN M |-> EditCost(L, o.v, M[k], pr)]
      s == SumSeq(exp) IN
  IF o.costs # exp THEN "cost per sample " \o ToString(o.costs) \o ", best scripts " \o ToString(exp)
  ELSE IF ~(Sorted(o.sorted) /\ Same(o.sorted, exp)) THEN "sorted costs"
  ELSE IF o.avg # s THEN "average cost"
  ELSE IF n > 1 /\ o.var # n * Dot(exp, exp) - s * s THEN "variance of costs"
  ELSE IF Chars(o.parts) # Chars(Pieces(L, o.v, <<>>)) THEN "extracted parts"
  ELSE ""
\* The display of the edits into one sample: what is kept or deleted is the suggestion,
\* what is kept or inserted is the sample (the part before the exit), spaces aside.
Solid(s) == SelectSeq(s, LAMBDA x : x \notin {32, 10, 9, 13})
TextOf(L) == Joined([x \in DOMAIN L |-> <<IF L[x].k \in {"TOK", "DEC"} THEN L[x].txt ELSE <<>>>>])
ShownEdits(L, M, v, e, k, ctx) ==
  LET part(acts) == Joined(SelectSeq([x \in DOMAIN e.parts |-> <<e.parts[x][3], e.parts[x][1]>>],
                                     LAMBDA y : y[2] \in acts))
      proto == Joined(Pieces(L, v, <<>>))
      target == Solid(TextOf(M))
      got == Solid(part({"KEEP", "INSERT"})) IN
  IF e.k # k - 1 THEN "number"
  ELSE IF e.ctx # ctx THEN "context"
  ELSE IF e.odd # <<>> THEN "malformed"
  ELSE IF part({"KEEP", "DELETE"}) # proto THEN "kept and deleted text"
  ELSE IF \E x \in DOMAIN L : L[x].k = "EE" /\ v[x] = T
       THEN (IF StartsWith(target, got) THEN "" ELSE "kept and inserted text before the exit")
  ELSE IF got # target THEN "kept and inserted text" ELSE ""
\* the first curve is over the steps, the second over the decision moved in each step, the third
\* over the time
Over(k, xs, moved) ==
  CASE k = 1 -> \A x \in DOMAIN xs : xs[x] = 16 * (x - 1)
    [] k = 2 -> xs = moved
    [] OTHER -> \A x \in 1..(Len(xs) - 1) : xs[x] <= xs[x + 1]
\* a curve of bounds (in 1/16 of the unit, rounded up) that ends at the bound and stays above
\* the line drawn at the utility
Plot(q, utility, ub) ==
  IF q.n[1] # q.n[2] \/ q.n[1] # Len(q.curve) \/ q.n[1] = 0 THEN "points"
  ELSE IF q.line # 16 * utility THEN "line"
  ELSE IF q.curve[Len(q.curve)] # ub THEN "end"
  ELSE IF \E x \in 1..(Len(q.curve) - 1) : q.curve[x] + 2 < q.curve[x + 1] THEN "increasing bound"
  ELSE ""
TClause(c) ==
  IF Raised(c) THEN "raised " \o c.out.exc
  ELSE LET i == c.in  o == c.out  D == i.w.D  n == Len(i.samples)
           pr == Derived(i.w.P, i.w.S, i.w.C, D)
           P == Expected(i.w.w, o.parsed[i.proto + 1], o.ctxlen) IN
  IF o.prototype # P THEN "prototype"
  ELSE IF \E k \in 1..n : o.targets[k] # Cut(o.parsed[k], o.ctxlen) THEN "target"
  ELSE LET L == Listing(P)
           M == [k \in 1..n |-> Listing(o.targets[k])]
           deciding == {x \in DOMAIN L : L[x].k \in {"TOK", "GRP", "RS", "RE", "EE"}}
           cb == IF o.empty THEN "" ELSE
             LET q == o.combine
                 s == SumSeq([k \in DOMAIN M |-> EditCost(L, q.v, M[k], pr)]) IN
             IF ~WellFormed(L, q.v) THEN "the decisions are not well formed"
             ELSE LET why == Info(L, M, pr, q, n) IN
             IF why # "" THEN why
             ELSE IF q.utility # -s THEN "utility " \o ToString(q.utility) \o ", true " \o ToString(-s)
             ELSE IF 16 * q.utility > q.ub THEN "the bound is below the utility of the solution"
             ELSE IF Chars(q.grouped) # Chars(q.parts) \/
                     \E k \in 1..(Len(q.grouped) - 1) : q.grouped[k][2] = q.grouped[k + 1][2]
                  THEN "grouped parts"
             ELSE IF q.html # o.ctx \o Joined(Pieces(L, q.v, Ellipsis)) THEN "shown suggestion"
             ELSE IF Len(q.edits) # n THEN "number of shown edits"
             ELSE IF \E k \in 1..n : ShownEdits(L, M[k], q.v, q.edits[k], k, o.ctx) # ""
                  THEN "shown edits: " \o LET k == CHOOSE x \in 1..n : ShownEdits(L, M[x], q.v, q.edits[x], x, o.ctx) # ""
                                          IN ShownEdits(L, M[k], q.v, q.edits[k], k, o.ctx)
             ELSE IF Len(q.plots) # 3 \/ \E k \in 1..3 : Plot(q.plots[k], q.utility, q.ub) # ""
                       \/ \E p \in 1..3 : ~Over(p, q.plots[p].xs, q.moved)
                  THEN "plotted bounds"
             ELSE IF \E k \in 1..n : q.shown[k] # <<k - 1, -q.costs[k]>> THEN "shown utilities"
             ELSE "" IN
  IF o.empty /\ Cardinality(deciding) > 1 THEN "no answer"
  ELSE IF o.empty /\ o.mute # <<0, 0, 0, 0, 4, 1>> THEN "display without an answer"
  ELSE IF cb # "" THEN cb
  ELSE IF i.weights = <<>> \/ "evaltree" \notin DOMAIN o THEN ""
  ELSE LET E == Listing(o.evaltree)
           cost(v) == [k \in DOMAIN M |-> EditCost(L, v, M[k], pr)]
           wc(v) == Dot(i.weights, cost(v))
           wt == IF "weighted" \notin DOMAIN o THEN ""
                 ELSE IF ~WellFormed(L, o.weighted.v) THEN "weighted: decisions are not well formed"
                 ELSE IF o.weighted.cost # wc(o.weighted.v) THEN "weighted: cost "
                       \o ToString(o.weighted.cost) \o ", true " \o ToString(wc(o.weighted.v))
                 ELSE IF -(16 * wc(o.weighted.v)) > o.weighted.ub THEN "weighted: bound"
                 ELSE "" IN
       IF o.evaltree # Cut(o.evalparsed, o.ctxlen) THEN "evaluation target"
       ELSE IF wt # "" THEN wt
       ELSE LET RECURSIVE each(_)
                each(k) == IF k > Len(o.evals) THEN ""
                  ELSE LET q == o.evals[k]
                           why == Info(L, M, pr, q, n)
                           tc == EditCost(L, q.v, E, pr) IN
                    IF why # "" THEN "chosen decisions: " \o why
                    ELSE IF q.total # tc THEN "chosen decisions: total cost"
                    ELSE IF q.rank # Below(q.costs, tc) THEN "chosen decisions: rank"
                    ELSE IF ~o.empty /\ -(16 * SumSeq(q.costs)) > o.combine.ub
                         THEN "the bound is below the utility of other decisions"
                    ELSE IF "weighted" \in DOMAIN o /\ -(16 * Dot(i.weights, q.costs)) > o.weighted.ub
                         THEN "weighted: bound is below the utility of other decisions"
                    ELSE each(k + 1)
            IN each(1)
=============================================================================
