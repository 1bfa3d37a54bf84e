----------------------------- MODULE Trace_Calls -----------------------------
(* The call-extraction pipeline as recorded.                                    *)
EXTENDS Calls, Judge
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
DotP(a, b) == SumSeq([k \in DOMAIN a |-> a[k] * b[k]])
Below(s, x) == Cardinality({k \in DOMAIN s : s[k] < x})
Sorted(s) == \A k \in 1..(Len(s) - 1) : s[k] <= s[k + 1]
Same(s, t) == Len(s) = Len(t) /\ \A x \in {s[k] : k \in DOMAIN s} \cup {t[k] : k \in DOMAIN t} :
  Cardinality({k \in DOMAIN s : s[k] = x}) = Cardinality({k \in DOMAIN t : t[k] = x})
RECURSIVE Joined(_)
Joined(ps) == IF ps = <<>> THEN <<>> ELSE Head(ps)[1] \o Joined(Tail(ps))
RECURSIVE Spaced(_)
Spaced(s) == IF s = <<>> THEN <<>> ELSE IF Len(s) = 1 THEN s[1] ELSE s[1] \o <<32>> \o Spaced(Tail(s))
\* the texts of the selected parts of decisions v
Texts(p, L, v) ==
  LET RR == RegionSeq(L, v) IN
  [i \in DOMAIN RR |->
     LET it == SelectSeq(RegionItems(p, L, RR[i]), LAMBDA a : L[a[2] + 1].k = "TOK")
     IN Spaced([k \in DOMAIN it |-> L[it[k][2] + 1].txt])]
PartWeight(p, L, r) ==
  SumF(LAMBDA x : Weight(L[x].ty[2]), {x \in r[1]..r[2] : L[x].k = "TOK"})
\* found[i]: was part i shown as found?  They must occur in the target in this order.
RECURSIVE InOrder(_, _, _, _, _, _)
InOrder(L, M, its, found, TI, j) ==
  IF its = <<>> THEN TRUE
  ELSE IF ~Head(found) THEN InOrder(L, M, Tail(its), Tail(found), TI, j)
  ELSE \E b \in j..Len(TI) : Found(L, M, Head(its), TI, b)
          /\ InOrder(L, M, Tail(its), Tail(found), TI, b + Len(Head(its)))
ShownParts(p, L, v, t, M, P, D, e, cost) ==
  LET tx == Texts(p, L, v)  RR == RegionSeq(L, v) IN
  IF [k \in DOMAIN e |-> e[k][2]] # tx THEN "parts shown"
  ELSE IF SumSeq([k \in DOMAIN e |-> LET w == PartWeight(p, L, RR[k]) IN IF e[k][1] THEN CallFound(w, P, D) ELSE CallWrong(w, P, D)]) # cost
       THEN "cost of the parts shown"
  ELSE IF ~InOrder(L, M, [k \in DOMAIN RR |-> RegionItems(p, L, RR[k])], [k \in DOMAIN e |-> e[k][1]], ItemsOf(t), 1)
       THEN "parts shown as found"
  ELSE ""
Info(p, L, TT, M, P, D, o) ==
  LET n == Len(M)
      exp == [k \in DOMAIN M |-> CallCost(p, L, o.v, TT[k], M[k], P, D)]
      s == SumSeq(exp) IN
  IF o.costs # exp THEN "cost per sample " \o ToString(o.costs) \o ", best " \o ToString(exp)
  ELSE IF ~(Sorted(o.sorted) /\ Same(o.sorted, exp)) THEN "sorted costs"
  ELSE IF o.avg # s THEN "average cost"
  ELSE IF n > 1 /\ o.var # n * DotP(exp, exp) - s * s THEN "variance of costs"
  ELSE IF Chars(o.parts) # Chars(Pieces(L, o.v, <<>>)) THEN "extracted parts"
  ELSE ""
\* numbers of selected tokens found / not found, by kind, against the value of the selection
Counted(L, v, q, P, D) ==
  LET sel(ty) == Cardinality({x \in DOMAIN L : L[x].k = "TOK" /\ v[x] = T /\ L[x].ty = <<"=", ty>>}) IN
  IF q.novel[1] + q.novel[2] # sel("NOVEL") \/ q.known[1] + q.known[2] # sel("EXPECTED")
     \/ q.args[1] + q.args[2] # sel("ARGS") THEN "counts of selected tokens"
  ELSE IF ~\E e \in 0..sel("EMPTY_ARGS") :
        q.total = P * (10 * q.novel[2] + q.known[2] + q.args[2] + (sel("EMPTY_ARGS") - e))
                  - (D - P) * (10 * q.novel[1] + q.known[1] + q.args[1] + e) THEN "counts of found tokens"
  ELSE ""
TClause(c) ==
  IF Raised(c) THEN "raised " \o c.out.exc
  ELSE LET i == c.in  o == c.out  n == Len(o.parsed)
           P == i.w.P  D == i.w.D
           builtin == ToSet(o.builtin)
           Pt == CallTree(o.parsed[i.proto + 1], o.ctxlen, builtin) IN
  IF o.prototype # Pt THEN "prototype"
  ELSE IF \E k \in 1..n : o.targets[k] # Strip(CallTree(o.parsed[k], o.ctxlen, builtin)) THEN "target"
  ELSE LET L == Listing(Pt)
           M == [k \in 1..n |-> Listing(o.targets[k])]
           cb == IF o.empty THEN "" ELSE
             LET q == o.combine
                 s == SumSeq(q.costs)
                 why == IF ~WellFormed(L, q.v) THEN "the decisions are not well formed"
                        ELSE Info(Pt, L, o.targets, M, P, D, q) IN
             IF why # "" THEN why
             ELSE IF q.utility # -s THEN "utility"
             ELSE IF 16 * q.utility > q.ub THEN "the bound is below the utility of the solution"
             ELSE IF q.html # Joined(Pieces(L, q.v, <<>>)) THEN "shown suggestion"
             ELSE IF Len(q.edits) # n THEN "number of shown targets"
             ELSE IF \E k \in 1..n : ShownParts(Pt, L, q.v, o.targets[k], M[k], P, D, q.edits[k], q.costs[k]) # ""
                  THEN LET k == CHOOSE k \in 1..n : ShownParts(Pt, L, q.v, o.targets[k], M[k], P, D, q.edits[k], q.costs[k]) # ""
                       IN ShownParts(Pt, L, q.v, o.targets[k], M[k], P, D, q.edits[k], q.costs[k])
             ELSE ""
           RECURSIVE rules(_)
           rules(k) == IF k > Len(o.rules) THEN ""
             ELSE LET r == o.rules[k]  v == RuleVector(L, Taken(L, r.rule)) IN
                  IF r.v # v THEN r.rule
                  ELSE IF Chars(r.parts) # Chars(Pieces(L, v, <<>>)) THEN r.rule \o ": extracted parts"
                  ELSE rules(k + 1)
           E == Listing(o.evaltree)
           RECURSIVE each(_)
           each(k) == IF k > Len(o.evals) THEN ""
             ELSE LET q == o.evals[k]
                      why == Info(Pt, L, o.targets, M, P, D, q)
                      tc == CallCost(Pt, L, q.v, o.evaltree, E, P, D) IN
               IF why # "" THEN "chosen decisions: " \o why
               ELSE IF q.total # tc THEN "chosen decisions: total cost"
               ELSE IF q.rank # Below(q.costs, tc) THEN "chosen decisions: rank"
               ELSE IF Counted(L, q.v, q, P, D) # "" THEN "chosen decisions: " \o Counted(L, q.v, q, P, D)
               ELSE IF ~o.empty /\ -(16 * SumSeq(q.costs)) > o.combine.ub
                    THEN "the bound is below the utility of other decisions"
               ELSE IF "weighted" \in DOMAIN o /\ -(16 * DotP(i.weights, q.costs)) > o.weighted.ub
                    THEN "weighted: bound is below the utility of other decisions"
               ELSE each(k + 1) IN
  IF o.empty /\ Len(L) > 0 THEN "no answer"
  ELSE IF cb # "" THEN cb
  ELSE IF Len(o.rules) # 3 THEN "baselines"
  ELSE IF rules(1) # "" THEN rules(1)
  ELSE IF "evaltree" \notin DOMAIN o THEN ""
  ELSE IF o.evaltree # Strip(CallTree(o.evalparsed, o.ctxlen, builtin)) THEN "evaluation target"
  ELSE IF "weighted" \in DOMAIN o /\ ~WellFormed(L, o.weighted.v) THEN "weighted: decisions are not well formed"
  ELSE IF "weighted" \in DOMAIN o /\ o.weighted.cost #
            DotP(i.weights, [k \in DOMAIN M |-> CallCost(Pt, L, o.weighted.v, o.targets[k], M[k], P, D)])
       THEN "weighted: cost"
  ELSE each(1)
=============================================================================
