---------------------------- MODULE Trace_Packed ----------------------------
EXTENDS Packed, Judge
One(c, o) ==
  LET t == c.in.tree  L == Listing(t)  n == Len(L) IN
  IF Len(o.nodes) # n THEN "number of stored nodes"
  ELSE IF \E j \in 1..n : o.nodes[j].pre # j - 1 THEN "preorder index"
  ELSE IF \E j \in 1..n : <<o.nodes[j].k, o.nodes[j].txt, o.nodes[j].ty>>
                            # <<L[j].k, L[j].txt, L[j].ty>> THEN "stored contents"
  ELSE IF \E j \in 1..n : <<o.nodes[j].parent, o.nodes[j].off>>
                            # <<L[j].parent, L[j].off>> THEN "position in parent"
  ELSE IF \E j \in 1..n : o.nodes[j].level # L[j].level THEN "level"
  ELSE IF \E j \in 1..n : o.nodes[j].path # L[j].path THEN "path of a node"
  ELSE IF \E j \in 1..n : o.nodes[j].lookup # j - 1 THEN "lookup by path"
  ELSE IF \E j \in 1..n : o.nodes[j].body # L[j].body THEN "rendered text of a node"
  ELSE IF \E j \in 1..n : o.nodes[j].k = "GRP" /\ o.nodes[j].kids # KidsOf(L, j - 1)
       THEN "children of a group"
  ELSE IF o.root # KidsOf(L, -1) THEN "root sequence"
  ELSE IF o.depth # LevelDepth(t) THEN "depth"
  ELSE IF o.unpacked # t THEN "unpacked tree"
  ELSE IF o.text # TreeText(t) THEN "rendered text"
  ELSE IF o.trav # Trav(t, 0, FALSE) THEN "in-order traversal"
  ELSE IF o.travs # Trav(t, 0, TRUE) THEN "in-order traversal without decorations"
  ELSE IF \E q \in 1..Len(o.probes) : LET b == o.probes[q] IN
            IF IsSeq(L, b.path) THEN b.seq # SeqAt(L, b.path) ELSE b.seq # <<-1>>
       THEN "sequence at a path"
  ELSE IF \E q \in 1..Len(o.probes) : LET b == o.probes[q] IN
            IF At(L, b.path) # {} THEN b.id + 1 \notin At(L, b.path) ELSE b.id # -1
       THEN "node at a path"
  ELSE ""
TClause(c) ==
  IF Raised(c) THEN "raised " \o c.out.exc
  ELSE LET a == One(c, c.out.plain)  b == One(c, c.out.typed) IN
       IF a # "" THEN a ELSE IF b # "" THEN b \o " (typed lists)" ELSE ""
=============================================================================
