------------------------------ MODULE MC_Drawing ------------------------------
(* Drawing boxes and then edges between them, one at a time.                    *)
EXTENDS Drawing, TLC
N == 30     \* canvas, larger than the tolerance
Coord == {0, 10, 20, 30}
VARIABLES boxes, lines, view
vars == <<boxes, lines, view>>
Box == {<<x, y, x + w, y + h>> : x \in {0, 20}, y \in {0, 10, 20}, w \in {10}, h \in {10}}
Init == boxes = <<>> /\ lines = <<>> /\ view = <<>>
DrawBox == /\ lines = <<>> /\ Len(boxes) < 3
           /\ \E b \in Box : /\ \A k \in DOMAIN boxes : Disjoint(b, boxes[k])
                             /\ boxes' = Append(boxes, b)
                             /\ view' = IF view = <<>> THEN b ELSE Union2(view, b)
           /\ UNCHANGED lines
DrawLine == /\ Len(lines) < (IF Len(boxes) = 2 THEN 2 ELSE 1)
            /\ \E i, j \in DOMAIN boxes : i # j /\ \E h \in BOOLEAN, a, z, c \in {0, 5, 10} :
                 LET s == IF h THEN <<boxes[i][3], boxes[i][2] + a>> ELSE <<boxes[i][1] + a, boxes[i][4]>>
                     d == IF h THEN <<boxes[j][1], boxes[j][2] + z>> ELSE <<boxes[j][1] + z, boxes[j][2]>>
                     bend == IF h THEN s[1] + ((d[1] - s[1]) * c) \div 10 ELSE s[2] + ((d[2] - s[2]) * c) \div 10
                     ps == Elbow(s, d, h, bend) IN
                 /\ lines' = Append(lines, <<i, j, ps>>)
                 /\ view' = Union2(view, UnionAll([k \in 1..4 |-> Point(ps[k])]))
            /\ UNCHANGED boxes
Next == DrawBox \/ DrawLine
Spec == Init /\ [][Next]_vars
LinesConnect == \A k \in DOMAIN lines : Connects(lines[k][3], boxes[lines[k][1]], boxes[lines[k][2]])
ViewIsUnion == boxes # <<>> => view = UnionAll(boxes \o [k \in DOMAIN lines |->
   UnionAll([m \in 1..4 |-> Point(lines[k][3][m])])])
\* between drawn boxes a line never leaves the view of the boxes
ElbowsStayInside == boxes # <<>> => view = UnionAll(boxes)
BoxesApart == \A i, j \in DOMAIN boxes : i # j => Disjoint(boxes[i], boxes[j])
=============================================================================
