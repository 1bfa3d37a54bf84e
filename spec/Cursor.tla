------------------------------- MODULE Cursor -------------------------------
(***************************************************************************)
(* Questions asked about a finished parse: where to truncate a completion, *)
(* how wide an indent is, where the docstrings of functions start.         *)
(* All positions are 0-based character positions in the raw text.          *)
(***************************************************************************)
EXTENDS PseudoParser

NONE == -1

\* Which bracket pairs count as blocks.
\* mode: "blocks" python blocks, "any" every pair, otherwise a pair of brackets, of which
\* one may be a correction
Counts(mode, paired) ==
  LET l == toks[Lo(paired) + 1]  r == toks[Hi(paired)]
      Either(a, b) == l.r = <<a>> \/ r.r = <<b>> IN
  CASE mode = "any" -> TRUE
    [] mode = "blocks" -> l.t = "PYTHON_INDENT"
    [] mode = "braces" -> Either(123, 125)
    [] mode = "parens" -> Either(40, 41)
    [] mode = "squares" -> Either(91, 93)

\* Leaves with the number of blocks around them.
RECURSIVE DLeaves(_, _, _)
DLeaves(mode, n, d) ==
  IF Kids(n) = <<>> THEN << <<n, d>> >>
  ELSE Flat([k \in 1..Len(Kids(n)) |->
         DLeaves(mode, Kids(n)[k],
           IF Kind(Kids(n)[k]) = "middle" /\ Counts(mode, n) THEN d + 1 ELSE d)])

LeafLen(n) == IF Lo(n) = Hi(n) THEN 0 ELSE Len(toks[Lo(n) + 1].r)
LeafLens(ls) == [k \in 1..Len(ls) |-> LeafLen(ls[k])]
\* Ends(lens)[k]: number of characters up to and including leaf k
Ends(lens) == LET E[k \in 0..Len(lens)] == IF k = 0 THEN 0 ELSE E[k - 1] + lens[k]
              IN E
TextLen == Len(Raws(toks))

\* The leaf that decides what the cursor is inside of: the first leaf that
\* starts after the cursor.
FirstAfter(E, n, cur) == IF n > 0 /\ E[n - 1] > cur
                         THEN CHOOSE k \in 1..n : E[k - 1] > cur /\ (k = 1 \/ E[k - 2] <= cur)
                         ELSE 0

\* The block around that leaf is closed by the first later leaf that lies one
\* level further out; one more leaf is included.
BlockEnds(mode) ==      \* for every cursor
  LET dl == DLeaves(mode, tree, 0)
      n == Len(dl)
      E == Ends(LeafLens([k \in 1..n |-> dl[k][1]]))
      T == TextLen
      Out1(f, d) == {k \in f..n : dl[k][2] = d - 1}
  IN [cur \in 0..T |->
       IF cur = T THEN T
       ELSE LET f == FirstAfter(E, n, cur) IN
            IF f = 0 THEN NONE
            ELSE LET S == Out1(f, dl[f][2]) IN
                 IF dl[f][2] = 0 \/ S = {} THEN NONE
                 ELSE LET c == CHOOSE k \in S : \A j \in S : k <= j
                      IN IF c + 1 <= n THEN E[c + 1] ELSE NONE]
BlockEnd(mode, cur) == BlockEnds(mode)[cur]

\* The end of the next statement: the next leaf that ends a statement group
\* with a separator, at any depth.  seps = {} stands for any separator.
RECURSIVE SLeaves(_, _, _)
SLeaves(n, kind, last) ==     \* <<leaf, ends a statement group>>
  IF Kids(n) = <<>> THEN << <<n, kind = "split" /\ last>> >>
  ELSE Flat([k \in 1..Len(Kids(n)) |->
         SLeaves(Kids(n)[k], Kind(n), k = Len(Kids(n)))])

StatementEnds(seps) ==
  LET sl == SLeaves(tree, "none", FALSE)
      n == Len(sl)
      E == Ends(LeafLens([k \in 1..n |-> sl[k][1]]))
      T == TextLen
      Stops == {k \in 1..n : sl[k][2] /\ (seps = {} \/ toks[Lo(sl[k][1]) + 1].r \in seps)}
  IN [cur \in 0..T |->
       IF cur = T THEN T
       ELSE LET f == FirstAfter(E, n, cur)
                S == IF f = 0 THEN {} ELSE {k \in Stops : k >= f} IN
            IF S = {} THEN E[n] ELSE E[CHOOSE k \in S : \A j \in S : k <= j]]
StatementEnd(seps, cur) == StatementEnds(seps)[cur]

BlockMode(l) == IF l = "python" THEN "blocks" ELSE "braces"
Separators(l) == IF l = "python" THEN {<<NL>>} ELSE {<<59>>}

Truncations(l) == LET b == BlockEnds(BlockMode(l))  e == StatementEnds(Separators(l))
                  IN [cur \in 0..TextLen |-> IF b[cur] # NONE THEN b[cur] ELSE e[cur]]
Truncate(l, cur) == Truncations(l)[cur]

\* Never before the cursor, never past the end, and progress if there is text.
InvTruncate == ph = "done" =>
  LET t == Truncations(Lang(ci)) IN
  \A cur \in 0..TextLen :
     LET r == t[cur]
     IN r <= TextLen /\ r >= cur /\ (cur < TextLen => r > cur)

----------------------------------------------------------------------------
\* Indent width: computed on a parse with one column per level.
Widths == {Len(toks[k].r) : k \in {j \in 2..Len(toks) :
             /\ toks[j].t = "WHITE_SPACE"
             /\ toks[j - 1].t \in {"PYTHON_INDENT", "PYTHON_DEDENT"}
             /\ toks[j].r # <<>>}}
IndentWidth(cands) ==
  IF Text(ci) = <<>> \/ Widths = {} THEN 1
  ELSE LET S == {w \in cands : \A x \in Widths : x % w = 0}
       IN IF S = {} THEN 1 ELSE CHOOSE w \in S : \A v \in S : v <= w

----------------------------------------------------------------------------
\* Docstrings of functions, on a parse with the inferred indent width w.
NodeText(n) == Flat([k \in 1..NLen(n) |-> toks[Lo(n) + k].r])
DefAt(c) == IsAt(c, RunEnd(c, 1, {SP}), <<100, 101, 102, 32>>)
QuoteAt(c) == LET p == RunEnd(c, 1, {SP}) IN
              IF IsAt(c, p, <<DQ, DQ, DQ>>) \/ IsAt(c, p, <<SQ, SQ, SQ>>)
              THEN p + 2 ELSE 0       \* number of characters up to the text
RECURSIVE Levels(_, _, _)
Levels(c, w, k) ==        \* leading indents; the last character never counts
  IF (k + 1) * w < Len(c) /\ \A j \in (k * w + 1)..((k + 1) * w) : c[j] \in Space
  THEN Levels(c, w, k + 1) ELSE k

RECURSIVE Docs(_, _)
Docs(n, w) ==
  LET ch == Kids(n)
      Here(k) ==      \* docstring after child k
        IF k = Len(ch) THEN <<>>
        ELSE LET a == NodeText(ch[k])  b == NodeText(ch[k + 1])
             IN IF DefAt(a) /\ QuoteAt(b) > 0 /\ Levels(b, w, 0) = Levels(a, w, 0) + 1
                THEN << Len(Flat([j \in 1..Lo(ch[k + 1]) |-> toks[j].r])) + QuoteAt(b) >>
                ELSE <<>>
  IN Flat([k \in 1..Len(ch) |-> Here(k) \o Docs(ch[k], w)])

\* End of the docstring whose text starts at cur: after the next same quote.
DocEnd(c, cur) == LET q == SubSeq(c, cur - 2, cur)
                      f == FindFrom(c, cur + 1, q)
                  IN IF f = 0 THEN NONE ELSE f + 2
=============================================================================
