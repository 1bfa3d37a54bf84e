------------------------------- MODULE Packed -------------------------------
(***************************************************************************)
(* Packed storage of a suggestion tree: nodes in preorder with their place  *)
(* in the tree, and the traversals computed from it.  Indices are 0-based;  *)
(* -1 is the parent of the nodes of the root sequence.                      *)
(***************************************************************************)
EXTENDS Trees

RECURSIVE Size(_)
Size(t) == IF t = <<>> THEN 0
           ELSE 1 + Size(Ch(Head(t))) + Size(Tail(t))

\* Preorder listing: each entry [k, txt, ty, parent, off, level, path, kids, body]
RECURSIVE Pre(_, _, _, _, _, _)
Pre(t, first, parent, off, level, prefix) ==
  IF t = <<>> THEN <<>>
  ELSE LET n == Head(t)
           p == Append(prefix, off)
           me == [k |-> K(n), txt |-> Txt(n), ty |-> Ty(n), parent |-> parent,
                  off |-> off, level |-> level, path |-> p,
                  body |-> TreeText(<<n>>)]
       IN <<me>> \o Pre(Ch(n), first + 1, first, 0, level + 1, p)
                 \o Pre(Tail(t), first + 1 + Size(Ch(n)), parent, off + 1, level, prefix)
Listing(t) == Pre(t, 0, -1, 0, 0, <<>>)

\* Children of node x (0-based; -1: root sequence), in order.
KidsOf(L, x) == SelectSeq([j \in 1..Len(L) |-> j - 1], LAMBDA j : L[j + 1].parent = x)

\* In-order traversal: groups before and after their children.
RECURSIVE Trav(_, _, _)
Trav(t, first, strip) ==
  IF t = <<>> THEN <<>>
  ELSE LET n == Head(t) IN
       (IF K(n) = "GRP"
        THEN << <<"BEFORE_GROUP", first>> >> \o Trav(Ch(n), first + 1, strip)
             \o << <<"AFTER_GROUP", first>> >>
        ELSE IF strip /\ K(n) = "DEC" THEN <<>> ELSE << <<"LEAF", first>> >>)
       \o Trav(Tail(t), first + 1 + Size(Ch(n)), strip)

\* Levels in use: one more than the deepest level of a stored node.
LevelDepth(t) == LET L == Listing(t)
                     S == {0} \cup {L[j].level : j \in 1..Len(L)}
                 IN 1 + (CHOOSE x \in S : \A y \in S : y <= x)

\* Lookups: the nodes of the sequence a path leads to.
At(L, path) == {j \in 1..Len(L) : L[j].path = path}
IsSeq(L, path) == path = <<>> \/ \E j \in At(L, path) : L[j].k = "GRP"
SeqAt(L, path) == IF path = <<>> THEN KidsOf(L, -1) ELSE KidsOf(L, (CHOOSE j \in At(L, path) : TRUE) - 1)

----------------------------------------------------------------------------
\* Laws of the representation.
LawIndices(t) == LET L == Listing(t) IN
   /\ Len(L) = Size(t)
   /\ \A j \in 1..Len(L) : L[j].parent < j - 1 /\ L[j].parent >= -1
   /\ \A a, b \in 1..Len(L) : L[a].path = L[b].path => a = b
LawTraversal(t) == LET V == Trav(t, 0, FALSE) IN
   /\ \A x \in 0..(Size(t) - 1) :
        Cardinality({j \in 1..Len(V) : V[j][2] = x}) =
          (IF Listing(t)[x + 1].k = "GRP" THEN 2 ELSE 1)
   /\ \A j \in 1..Len(V) : V[j][1] = "AFTER_GROUP" =>
        \E m \in 1..(j - 1) : V[m] = <<"BEFORE_GROUP", V[j][2]>>
=============================================================================
