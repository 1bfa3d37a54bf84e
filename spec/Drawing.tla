------------------------------- MODULE Drawing -------------------------------
(***************************************************************************)
(* Drawings of decision diagrams.  A box is <<left, top, right, bottom>>, a    *)
(* point <<x, y>>; an edge is drawn as a line of four points that leaves the    *)
(* border of one box and enters the border of another, bending at right angles. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
Tol == 2
Near(a, b) == a - b <= Tol /\ b - a <= Tol
NearPt(p, q) == Near(p[1], q[1]) /\ Near(p[2], q[2])
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Point(p) == <<p[1], p[2], p[1], p[2]>>
Union2(a, b) == <<Min2(a[1], b[1]), Min2(a[2], b[2]), Max2(a[3], b[3]), Max2(a[4], b[4])>>
RECURSIVE UnionAll(_)
UnionAll(s) == IF Len(s) = 1 THEN s[1] ELSE Union2(s[1], UnionAll(Tail(s)))
Inside(a, b) == a[1] >= b[1] - Tol /\ a[2] >= b[2] - Tol /\ a[3] <= b[3] + Tol /\ a[4] <= b[4] + Tol
Pad(b, p) == <<b[1] - p, b[2] - p, b[3] + p, b[4] + p>>
SameBox(a, b) == \A k \in 1..4 : Near(a[k], b[k])
Disjoint(a, b) == a[3] <= b[1] \/ b[3] <= a[1] \/ a[4] <= b[2] \/ b[4] <= a[2]
\* p lies on the border of b
OnBorder(p, b) == \/ /\ \E k \in {1, 3} : Near(p[1], b[k])
                     /\ p[2] >= b[2] - Tol /\ p[2] <= b[4] + Tol
                  \/ /\ \E k \in {2, 4} : Near(p[2], b[k])
                     /\ p[1] >= b[1] - Tol /\ p[1] <= b[3] + Tol
RightAngled(ps) == \A k \in 1..(Len(ps) - 1) : Near(ps[k][1], ps[k + 1][1]) \/ Near(ps[k][2], ps[k + 1][2])
Connects(ps, a, b) == Len(ps) = 4 /\ OnBorder(ps[1], a) /\ OnBorder(ps[4], b) /\ RightAngled(ps)
\* the line from s to d that starts and ends horizontally (or vertically) and bends at c
Elbow(s, d, horizontal, c) ==
  IF horizontal THEN <<s, <<c, s[2]>>, <<c, d[2]>>, d>> ELSE <<s, <<s[1], c>>, <<d[1], c>>, d>>
\* the point that is f (in 1/100000) of the way from a to b
Way(a, b, f) == LET w == b - a IN a + ((w \div 1000) * f) \div 100 + ((w % 1000) * f) \div 100000
Close(p, q) == \A k \in 1..2 : p[k] - q[k] <= 100 /\ q[k] - p[k] <= 100
\* the line planned by an annotation, from box a to box b: it leaves the right (lower) side of one
\* and enters the left (upper) side of the other
Planned(pl, a, b) ==
  IF pl.across
  THEN LET s == <<a[3], Way(a[2], a[4], pl.start)>>  d == <<b[1], Way(b[2], b[4], pl.end)>> IN
       Elbow(s, d, TRUE, Way(s[1], d[1], pl.bend) + pl.by)
  ELSE LET s == <<Way(a[1], a[3], pl.start), a[4]>>  d == <<Way(b[1], b[3], pl.end), b[2]>> IN
       Elbow(s, d, FALSE, Way(s[2], d[2], pl.bend) + pl.by)
AsPlanned(ps, pl, a, b) == LET q == Planned(pl, a, b) IN Len(ps) = 4 /\ \A k \in 1..4 : Close(ps[k], q[k])
\* where its dot lies: on the middle segment
Anchors(ps, pl) ==
  LET p == ps[2]  q == ps[3]
      gap == Max2(p[2] - q[2], q[2] - p[2])
      along == IF pl.across THEN <<p[1], Way(p[2], q[2], pl.text)>> ELSE <<Way(p[1], q[1], pl.text), p[2]>> IN
  IF ~pl.across \/ gap > pl.size + 100 THEN {along}
  ELSE IF gap < pl.size - 100 THEN {p} ELSE {p, along}
\* p lies on one of the segments of the line
OnLine(p, ps) == \E k \in 1..(Len(ps) - 1) :
  Inside(Point(p), Union2(Point(ps[k]), Point(ps[k + 1])))
---------------------------------------------------------------------------
(* Labels: the lines of a text, each given by <<x, y of its middle, size, where x is on it>>. *)
Stacked(ls, size) == \A k \in DOMAIN ls : /\ ls[k][3] = size /\ ls[k][1] = ls[1][1] /\ ls[k][4] = ls[1][4]
                                           /\ Near(ls[k][2], ls[1][2] + (k - 1) * size)
Top(ls) == ls[1][2] - ls[1][3] \div 2
Bottom(ls) == ls[Len(ls)][2] + ls[1][3] \div 2
\* the lines stand in the middle of the box
Centred(ls, b) == ls = <<>> \/ /\ Stacked(ls, ls[1][3])
                               /\ Near(2 * ls[1][1], b[1] + b[3]) /\ Near(Top(ls) + Bottom(ls), b[2] + b[4])
\* the label lies on side `dir' of the point p, at distance pad
Beside(ls, p, dir, size, pad) ==
  /\ Stacked(ls, size)
  /\ CASE dir \in {"RIGHT", "UP_RIGHT", "DOWN_RIGHT"} -> ls[1][4] = "start" /\ Near(ls[1][1], p[1] + pad)
       [] dir \in {"LEFT", "UP_LEFT", "DOWN_LEFT"} -> ls[1][4] = "end" /\ Near(ls[1][1], p[1] - pad)
       [] OTHER -> ls[1][4] = "middle" /\ Near(ls[1][1], p[1])
  /\ CASE dir \in {"UP", "UP_LEFT", "UP_RIGHT"} -> Near(Bottom(ls), p[2] - pad)
       [] dir \in {"DOWN", "DOWN_LEFT", "DOWN_RIGHT"} -> Near(Top(ls), p[2] + pad)
       [] dir \in {"LEFT", "RIGHT"} -> Near(Top(ls) + Bottom(ls), 2 * p[2])
       [] OTHER -> \* around: half of the lines above the point, the odd one too
            Near(Top(ls) + ((Len(ls) + 1) \div 2) * size, p[2])
=============================================================================
