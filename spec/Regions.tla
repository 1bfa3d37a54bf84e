------------------------------- MODULE Regions -------------------------------
(***************************************************************************)
(* Annotation decisions over a suggestion tree.  A decision vector v gives   *)
(* every node (by preorder position) a value: F, T or NA.  What is decided   *)
(* depends on the kind of node: "RS" start a region here?, "RE" end it here?,*)
(* "EE" stop here?, "TOK"/"GRP" is the node inside a region?  Decorations    *)
(* carry no decision (NA).                                                   *)
(***************************************************************************)
EXTENDS Packed, SequencesExt
F == 1
T == 2
NA == 3
Values == {F, T, NA}
\* Preorder position (1-based) of the last node below node x; x = 0 is the root.
LastBelow(L, x) == IF x = 0 THEN Len(L)
  ELSE LET S == {y \in x..Len(L) : y = x \/ \A z \in (x + 1)..y : L[z].parent >= x - 1}
       IN CHOOSE y \in S : \A z \in S : z <= y
Deciding(k) == k \in {"TOK", "GRP", "RS", "RE", "EE"}
---------------------------------------------------------------------------
(* Declarative definition.                                                   *)
ExitOf(L, v) == LET S == {x \in DOMAIN L : L[x].k = "EE" /\ v[x] = T}
                IN IF S = {} THEN Len(L) + 1 ELSE CHOOSE x \in S : \A y \in S : x <= y
Exited(L, v) == ExitOf(L, v) <= Len(L)
\* The regions: from each start marked T to the next end marked T (or the exit).
EndOf(L, v, s) ==
  LET S == {x \in (s + 1)..(ExitOf(L, v) - 1) : L[x].k = "RE" /\ v[x] = T}
  IN IF S = {} THEN ExitOf(L, v) ELSE CHOOSE x \in S : \A y \in S : x <= y
RegionsOf(L, v) ==
  {<<s, EndOf(L, v, s)>> : s \in {x \in DOMAIN L : L[x].k = "RS" /\ v[x] = T}}
WellFormed(L, v) ==
  LET X == ExitOf(L, v)
      R == RegionsOf(L, v)
      inside(x) == \E r \in R : r[1] < x /\ x < r[2]
  IN /\ \A x \in DOMAIN L : x > X => v[x] = NA           \* nothing after the exit
     /\ \A x \in DOMAIN L : L[x].k = "DEC" => v[x] = NA
     \* a region ends in the sequence it starts in, or is cut by the exit below it
     /\ \A r \in R : IF r[2] < X THEN L[r[2]].parent = L[r[1]].parent
                     ELSE X <= Len(L) /\ X <= LastBelow(L, L[r[1]].parent + 1)
     \* regions do not overlap
     /\ \A r, q \in R : r # q => r[2] < q[1] \/ q[2] < r[1]
     \* ends only end something
     /\ \A x \in DOMAIN L : L[x].k = "RE" /\ v[x] = T => \E r \in R : r[2] = x
     \* every other decision follows
     /\ \A x \in 1..(IF X <= Len(L) THEN X ELSE Len(L)) :
          CASE L[x].k = "DEC" -> TRUE
            [] L[x].k = "EE" -> v[x] = IF x = X THEN T ELSE F
            [] L[x].k \in {"TOK", "GRP"} -> v[x] = IF inside(x) THEN T ELSE F
            [] L[x].k = "RS" -> (v[x] = NA) = inside(x)
            [] L[x].k = "RE" -> v[x] = T \/ v[x] = IF inside(x) THEN F ELSE NA
---------------------------------------------------------------------------
(* Operational definition: walk the tree, remembering the open region.       *)
(* w = [open |-> position of the open region's start or 0, done |-> BOOLEAN] *)
WStart == [open |-> 0, done |-> FALSE]
\* Values that node x may get in walker state w
MayDecide(L, w, x) ==
  LET k == L[x].k
      \* the sequence that opened the region ended before x: it cannot be open
      left == w.open # 0 /\ x > LastBelow(L, L[w.open].parent + 1)
  IN IF k = "DEC" THEN (IF left /\ ~w.done THEN {} ELSE {NA})
     ELSE IF w.done THEN {NA}
     ELSE IF left THEN {}
     ELSE CASE k = "RS" -> IF w.open # 0 THEN {NA} ELSE {F, T}
            [] k = "RE" -> IF w.open = 0 THEN {NA}
                           ELSE IF L[x].parent = L[w.open].parent THEN {F, T} ELSE {F}
            [] k = "EE" -> {F, T}
            [] OTHER -> IF w.open # 0 THEN {T} ELSE {F}
After(L, w, x, val) ==
  CASE L[x].k = "RS" /\ val = T -> [w EXCEPT !.open = x]
    [] L[x].k = "RE" /\ val = T -> [w EXCEPT !.open = 0]
    [] L[x].k = "EE" /\ val = T -> [w EXCEPT !.done = TRUE]
    [] OTHER -> w
MayFinish(w) == w.done \/ w.open = 0
RECURSIVE WalkAll(_, _, _, _)
WalkAll(L, w, x, v) ==
  IF x > Len(L) THEN IF MayFinish(w) THEN {v} ELSE {}
  ELSE UNION {WalkAll(L, After(L, w, x, d), x + 1, Append(v, d)) : d \in MayDecide(L, w, x)}
WellFormedSet(L) == WalkAll(L, WStart, 1, <<>>)
---------------------------------------------------------------------------
(* What the user sees: the text up to the exit, each piece marked with        *)
(* whether it lies in a region; a region without any text shows a marker.     *)
Pieces(L, v, marker) ==
  LET X == ExitOf(L, v)
      R == RegionsOf(L, v)
      inside(x) == \E r \in R : r[1] < x /\ x < r[2]
      isText(x) == L[x].k \in {"TOK", "DEC"}
      empty(r) == r[2] < X /\ \A x \in (r[1] + 1)..(r[2] - 1) : ~isText(x)
      piece(x) == IF isText(x) THEN << <<L[x].txt, inside(x)>> >>
                  ELSE IF \E r \in R : r[2] = x /\ empty(r) THEN << <<marker, TRUE>> >>
                  ELSE <<>>
      RECURSIVE go(_)
      go(x) == IF x >= X THEN <<>> ELSE piece(x) \o go(x + 1)
  IN go(1)
\* as characters
RECURSIVE Chars(_)
Chars(ps) == IF ps = <<>> THEN <<>>
             ELSE [j \in DOMAIN Head(ps)[1] |-> <<Head(ps)[1][j], Head(ps)[2]>>] \o Chars(Tail(ps))
=============================================================================
