----------------------------- MODULE Trace_Script -----------------------------
(* A path of a diagram is a run of the editing (or selection) machine, and     *)
(* what is reported about it (script, page, metrics, groups) says the same.    *)
EXTENDS EditMachine, Judge
SM == INSTANCE Select
\* all machine states after showing the events, with silent steps in between
RECURSIVE Quiet(_, _)
Quiet(St(_), S) ==
  LET N == S \cup UNION {{q[2] : q \in {e \in St(s) : e[1] = <<>>}} : s \in S}
  IN IF N = S THEN S ELSE Quiet(St, N)
RECURSIVE Follow(_, _, _)
Follow(St(_), S, ev) ==
  LET Q == Quiet(St, S) IN
  IF ev = <<>> \/ Q = {} THEN Q
  ELSE Follow(St, UNION {{q[2] : q \in {e \in St(s) : e[1] = Head(ev)}} : s \in Q}, Tail(ev))
Runs(St(_), S, ev, cost) == \E s \in Follow(St, S, ev) : s.done /\ s.cost = cost

RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
Map(f(_), s) == [k \in DOMAIN s |-> f(s[k])]
Blank == {32, 10}
Solid(cs) == SelectSeq(cs, LAMBDA c : c[1] \notin Blank)
\* characters with their action and confidence
Mark(txt, a, cf) == [k \in DOMAIN txt |-> <<txt[k], a, cf>>]
SumSeq(s) == LET RECURSIVE go(_)
                 go(i) == IF i > Len(s) THEN 0 ELSE s[i] + go(i + 1) IN go(1)

EditClause(c) ==
  LET o == c.out  L == Listing(c.in.p)  M == Listing(c.in.t)  v == o.vec
      PI == Trav(c.in.p, 0, FALSE)  TI == Trav(c.in.t, 0, FALSE)
      St(s) == Steps(L, v, PI, M, TI, c.in.pr, s)
      body(e) == IF e[2] # -1 THEN L[e[2] + 1].txt ELSE IF e[3] # -1 THEN M[e[3] + 1].txt ELSE <<>>
      \* the characters the script must show, decorations aside
      exp == Cat(Map(LAMBDA e : IF e[1] \in {"KEEP", "DELETE", "INSERT"}
                                THEN Mark(body(e), e[1], e[4]) ELSE <<>>, o.events))
      shown == Cat(Map(LAMBDA g : IF g[1] \in {"KEEP", "DELETE", "INSERT"}
                                  THEN Mark(g[3], g[1], g[2]) ELSE <<>>, o.groups))
      before == Cat(Map(LAMBDA n : IF n.k \in {"TOK", "DEC"} THEN n.txt ELSE <<>>,
                        SubSeq(L, 1, IF Exited(L, v) THEN ExitOf(L, v) - 1 ELSE Len(L))))
      fromProto == SelectSeq(shown, LAMBDA x : x[2] \in {"KEEP", "DELETE"})
      page == Cat(Map(LAMBDA g : IF g[1] \in {"KEEP", "DELETE", "INSERT"}
                                 THEN Mark(g[3], g[1], g[2]) ELSE <<>>, o.html))
      keyset == {<<e[1], e[4]>> : e \in {o.events[i] : i \in DOMAIN o.events}}
      of(k) == SelectSeq(o.events, LAMBDA e : e[1] = k[1] /\ e[4] = k[2])
      row(k) == <<k[1], k[2], SumSeq(Map(LAMBDA e : e[5], of(k))),
                  SumSeq(Map(LAMBDA e : Len(body(e)), of(k))), Len(of(k))>>
      costBy(a) == SumSeq(Map(LAMBDA e : e[5], SelectSeq(o.events, LAMBDA e : e[1] = a)))
      groupBy(a) == SumSeq(Map(LAMBDA g : g[4], SelectSeq(o.groups, LAMBDA g : g[1] = a)))
  IN
  IF o.hidden # 0 THEN "a step without explanation has a cost"
  ELSE IF ~Runs(St, {Start}, o.events, o.cost) THEN "the path is not an edit of the prototype into the target"
  ELSE IF o.junk # <<>> THEN "unreadable script"
  ELSE IF Solid(shown) # Solid(exp) THEN "script: kept, deleted or inserted text"
  ELSE IF Map(LAMBDA x : x[1], fromProto) # before THEN "script: kept and deleted text is not the prototype"
  ELSE IF o.total # o.cost THEN "script: total cost"
  ELSE IF \E a \in {"KEEP", "DELETE", "INSERT", "START_EDITING", "START_LOW_CONFIDENCE"} :
            costBy(a) # groupBy(a) THEN "script: cost of a group"
  ELSE IF o.odd # <<>> THEN "page: malformed"
  ELSE IF o.hprefix # c.in.prefix THEN "page: prefix"
  ELSE IF page # shown THEN "page: text, action or confidence"
  ELSE IF Len(SelectSeq(o.html, LAMBDA g : g[1] = "START_EDITING")) #
          Len(SelectSeq(o.groups, LAMBDA g : g[1] = "START_EDITING")) THEN "page: edit markers"
  ELSE IF {o.metrics[i] : i \in DOMAIN o.metrics} # {row(k) : k \in keyset} THEN "metrics"
  ELSE IF SumSeq(Map(LAMBDA r : r[3], o.metrics)) # o.cost THEN "metrics do not add up"
  ELSE ""
SelectClause(c) ==
  LET o == c.out  L == Listing(c.in.p)  M == Listing(c.in.t)
      PI == Trav(c.in.p, 0, TRUE)  TI == SM!ItemsOf(c.in.t)
      St(s) == SM!SSteps(L, o.vec, PI, M, TI, c.in.pr, s)
      tokenOf(e) == IF e[2] # -1 THEN L[e[2] + 1] ELSE M[e[3] + 1]
      exp == Cat(Map(LAMBDA e : IF tokenOf(e).k = "TOK" THEN << <<e[1], tokenOf(e).txt>> >> ELSE <<>>,
                     o.events))
      shown == Cat(Map(LAMBDA g : [k \in DOMAIN g[2] |-> <<g[1], g[2][k]>>], o.groups))
      costBy(a) == SumSeq(Map(LAMBDA e : e[4], SelectSeq(o.events, LAMBDA e : e[1] = a)))
      groupBy(a) == SumSeq(Map(LAMBDA g : g[3], SelectSeq(o.groups, LAMBDA g : g[1] = a)))
      cats == {"SELECT_MATCHED", "SELECT_UNMATCHED", "SKIP_IN_TARGET", "SKIP_UNSELECTED_IN_PROTOTYPE"}
  IN
  IF o.hidden # 0 THEN "a step without explanation has a cost"
  ELSE IF ~Runs(St, {SM!SStart}, o.events, o.cost) THEN "the path is not a selection"
  ELSE IF shown # exp THEN "groups: tokens or category"
  ELSE IF \E a \in cats : costBy(a) # groupBy(a) THEN "groups: cost"
  ELSE IF SumSeq(Map(LAMBDA g : g[3], o.groups)) # o.cost THEN "groups: total cost"
  ELSE ""
TClause(c) ==
  IF Raised(c) THEN "raised " \o c.out.exc
  ELSE IF "nopath" \in DOMAIN c.out THEN ""
  ELSE IF c.in.kind = "edit" THEN EditClause(c) ELSE SelectClause(c)
=============================================================================
