---------------------------- MODULE Trace_Drawing ----------------------------
(* Recorded drawings: c.out.edges are the diagram's edges <<source, dest, cost,  *)
(* decision class, value class, ..>> over state numbers, in the diagram's order. *)
EXTENDS Drawing, Dag, Judge
SameEdge(a, b) == SubSeq(a, 1, 5) = SubSeq(b, 1, 5)
LabelClause(i, o) ==
  IF o.text # i.text THEN "text of a label"
  ELSE IF ~Beside(o.lines, o.at, i.dir, o.size, o.pad) THEN "place of a label"
  ELSE IF ~o.tags \/ o.titles # (IF i.hover = "" THEN <<>> ELSE <<i.hover>>) THEN "tags or hover text of a label"
  ELSE IF ~Inside(Point(o.at), o.view) THEN "point outside the view" ELSE ""
\* a few shapes asked of the renderer directly, in units (the drawing is recorded in thousandths)
Scaled(ps) == [k \in DOMAIN ps |-> [j \in DOMAIN ps[k] |-> 1000 * ps[k][j]]]
BoxOf(i) == LET p == Scaled(i.pts)[1] IN <<p[1], p[2], p[1] + 1000 * i.wh[1], p[2] + 1000 * i.wh[2]>>
Extent(i) == IF i.s \in {"box", "container"} THEN BoxOf(i)
             ELSE UnionAll([k \in DOMAIN i.pts |-> Point(Scaled(i.pts)[k])])
ShapeClause(i, d, k, view, pad) ==
  IF d.s # (IF i.s = "container" THEN "box" ELSE i.s) THEN "kind of a shape"
  ELSE IF i.s \in {"box", "container"} /\ ~SameBox(d.box, BoxOf(i)) THEN "box of a shape"
  ELSE IF i.s \in {"line", "dot"} /\ d.pts # Scaled(i.pts) THEN "points of a shape"
  ELSE IF i.s = "box" /\ (d.text # i.text \/ ~Stacked(d.lines, 1000 * i.size) \/ ~Centred(d.lines, BoxOf(i)))
       THEN "text in a box"
  ELSE IF i.s # "container" /\ d.hover # "h" \o ToString(k - 1) THEN "hover text of a shape"
  ELSE IF {d.tags[x] : x \in DOMAIN d.tags} # {i.tags[x] : x \in DOMAIN i.tags} THEN "tags of a shape"
  ELSE IF ~Inside(Pad(Extent(i), 1000 * pad), view) THEN "shape outside the view" ELSE ""
ShapesClause(i, o) ==
  IF Len(o.drawn) # Len(i.items) THEN "number of shapes"
  ELSE LET bad(k) == ShapeClause(i.items[k], o.drawn[k], k, o.view, i.pad)
           B == {k \in DOMAIN o.drawn : bad(k) # ""} IN
       IF B = {} THEN "" ELSE bad(CHOOSE k \in B : TRUE)
Abs(x) == IF x < 0 THEN -x ELSE x
Labels(d) == LET ls == d.label  m == Len(ls)  z == ls[1][3] IN
  /\ Stacked(ls, z)
  /\ Abs(ls[1][1] - d.dot[1]) <= 2 * z + d.adjust
  /\ Top(ls) <= d.dot[2] + 2 * z + d.adjust /\ Bottom(ls) >= d.dot[2] - 2 * z - d.adjust
TClause(c) ==
  IF Raised(c) THEN "raised " \o c.out.exc
  ELSE IF c.in.kind = "label" THEN LabelClause(c.in, c.out)
  ELSE IF c.in.kind = "shapes" THEN ShapesClause(c.in, c.out)
  ELSE LET o == c.out
           E == o.edges
           S == EdgeStates(E)
           U == Useful(E, o.init, o.final)
           box == [s \in S |-> LET k == CHOOSE k \in DOMAIN o.states : o.states[k].id = s IN o.states[k].box]
           n == Len(o.states) IN
  IF {o.states[k].id : k \in 1..n} # S \/ n # Cardinality(S) THEN "every state is drawn once"
  ELSE IF \E k \in 1..n : ~SameBox(o.states[k].box, o.states[k].want) THEN "box of a state"
  ELSE IF \E k \in 1..n : o.states[k].reach # (o.states[k].id \in U) THEN "mark of reachable states"
  ELSE IF \E k \in 1..n : o.states[k].text # o.states[k].wanttext THEN "text of a state"
  ELSE IF \E k \in 1..n : ~Centred(o.states[k].lines, o.states[k].box) THEN "place of the text of a state"
  ELSE IF o.apart /\ \E a, b \in S : a # b /\ ~Disjoint(box[a], box[b]) THEN "boxes overlap"
  ELSE IF Len(o.drawn) # Len(E) \/ {o.drawn[k].id : k \in DOMAIN o.drawn} # DOMAIN E THEN "every edge is drawn once"
  ELSE LET bad(k) ==
             LET d == o.drawn[k]  e == E[d.id]
                 emph == \E j \in DOMAIN o.emph : SameEdge(E[o.emph[j]], e) IN
             IF ~Connects(d.points, box[Src(e)], box[Dst(e)]) THEN "line of an edge"
             ELSE IF ~AsPlanned(d.points, d.plan, box[Src(e)], box[Dst(e)]) THEN "course of an edge"
             ELSE IF ~\E p \in Anchors(d.points, d.plan) : Close(d.dot, p) THEN "dot of an edge"
             ELSE IF d.text # d.wanttext \/ ~d.says THEN "label of an edge"
             ELSE IF ~OnLine(d.dot, d.points) \/ ~Labels(d) THEN "place of the label of an edge"
             ELSE IF d.high # (o.emph # <<>> /\ emph) \/ d.low # (o.emph # <<>> /\ ~emph) THEN "emphasis"
             ELSE IF d.reach # (Src(e) \in U /\ Dst(e) \in U) THEN "mark of reachable edges"
             ELSE ""
           B == {k \in DOMAIN o.drawn : bad(k) # ""} IN
       IF B # {} THEN bad(CHOOSE k \in B : TRUE)
       ELSE IF o.texts # o.wanttexts THEN "texts around the diagram"
       ELSE IF o.bare # "" THEN o.bare
       ELSE LET all == [k \in 1..n |-> o.states[k].box] \o o.extra
                  \o [k \in DOMAIN o.drawn |-> UnionAll([m \in DOMAIN o.drawn[k].points |-> Point(o.drawn[k].points[m])])]
                  \o [k \in DOMAIN o.drawn |-> Point(o.drawn[k].dot)] IN
       IF \E k \in DOMAIN all : ~Inside(all[k], o.view) THEN "something drawn is outside the view"
       ELSE ""
=============================================================================
