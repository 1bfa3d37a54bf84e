---------------------------- MODULE PseudoParser ----------------------------
(***************************************************************************)
(* The pseudo parser as a state machine.  One behaviour parses one text:   *)
(*                                                                         *)
(*   lex    one token per step                                             *)
(*   fix    scan the tokens and collect the bracket corrections            *)
(*   match  one token per step, building the bracket tree on a stack       *)
(*   lines  (python) one logical line per step, inserting indent/dedent    *)
(*   match2 (python) bracket matching again, with the blocks as brackets   *)
(*   split  group siblings into statements                                 *)
(*   nest   (python) hang every block under the line before it             *)
(*   done                                                                  *)
(*                                                                         *)
(* A parse node is <<kind, lo, hi, children>>; lo/hi are 0-based token     *)
(* positions, hi exclusive.  A token is [t |-> type, s |-> text, r |-> raw *)
(* text], raw being empty for inserted tokens.                             *)
(***************************************************************************)
EXTENDS Lexer, FiniteSets, TLC

VARIABLES ci,      \* which input is being parsed
          ph,      \* phase
          i,       \* position of the phase
          toks,    \* tokens found so far / being processed
          ops,     \* stack of open brackets (their token kinds)
          pre,     \* opening brackets to be prepended
          fr,      \* stack of open tree nodes
          aux,     \* phase specific data
          tree     \* result
pvars == <<ci, ph, i, toks, ops, pre, fr, aux, tree>>

CONSTANTS Lang(_), Text(_), Spi(_)   \* the inputs

----------------------------------------------------------------------------
Node(k, lo, hi, ch) == <<k, lo, hi, ch>>
Kind(n) == n[1]  Lo(n) == n[2]  Hi(n) == n[3]  Kids(n) == n[4]
NLen(n) == n[3] - n[2]

IND == [t |-> "PYTHON_INDENT", s |-> <<>>, r |-> <<>>]
DED == [t |-> "PYTHON_DEDENT", s |-> <<>>, r |-> <<>>]
Inserted(ch) == [t |-> "BRACE", s |-> <<ch>>, r |-> <<>>]

Openers == {40, 91, 123}
Partner(o) == CASE o = 40 -> 41 [] o = 91 -> 93 [] o = 123 -> 125
                [] o = 41 -> 40 [] o = 93 -> 91 [] o = 125 -> 123

\* Bracket kind of a token: its character, -2/-3 for indent/dedent, 0: none.
Br(tk) == IF tk.t = "PYTHON_INDENT" THEN -2
          ELSE IF tk.t = "PYTHON_DEDENT" THEN -3
          ELSE IF Len(tk.s) = 1 /\ tk.s[1] \in Brackets THEN tk.s[1] ELSE 0
IsOpener(b) == b \in Openers \/ b = -2
IsCloser(b) == b \in {41, 93, 125} \/ b = -3
OpenerOf(b) == IF b = -3 THEN -2 ELSE Partner(b)

\* Language parameters.
FullText(k) ==    \* the python preset terminates the text with a newline
  LET c == Text(k)
  IN IF Lang(k) = "python" /\ (c = <<>> \/ c[Len(c)] # NL)
     THEN Append(c, NL) ELSE c
Appended(k) == Len(FullText(k)) > Len(Text(k))

SplitTypes(l) == IF l = "cpp"
                 THEN {"C_PREPROCESSOR", "COMMENT_SLASHSLASH", "COMMENT_SLASHSTAR"}
                 ELSE IF CLang(l) THEN {"COMMENT_SLASHSLASH", "COMMENT_SLASHSTAR"}
                 ELSE {}
IsSplitter(l, tk) ==
  IF l = "python" THEN tk.s = <<NL>>
  ELSE IF l = "python_preprocessor" THEN FALSE
  ELSE tk.s = <<59>> \/ tk.t \in SplitTypes(l)
Splits(l) == l # "python_preprocessor"
UnsplittableOpener(l) == IF CLang(l) THEN {} ELSE {40, 91}

----------------------------------------------------------------------------
PInit(k) == /\ ci = k /\ ph = "lex" /\ i = 1 /\ toks = <<>> /\ ops = <<>>
            /\ pre = <<>> /\ fr = <<>> /\ aux = <<>> /\ tree = <<>>

Lex ==
  /\ ph = "lex" /\ i <= Len(FullText(ci))
  /\ LET c == FullText(ci)
         k == NextTok(Lang(ci), c, i)
         s == SubSeq(c, i, k.hi - 1)
     IN /\ toks' = Append(toks, [t |-> k.t, s |-> s,
                                 r |-> IF k.hi - 1 > Len(Text(ci)) THEN <<>> ELSE s])
        /\ i' = k.hi
  /\ UNCHANGED <<ci, ph, ops, pre, fr, aux, tree>>

LexDone ==
  /\ ph = "lex" /\ i > Len(FullText(ci))
  /\ ph' = "fix" /\ i' = 1
  /\ UNCHANGED <<ci, toks, ops, pre, fr, aux, tree>>

\* A closing bracket closes the innermost open bracket if that is of its kind;
\* with nothing open it asks for an opening bracket in front of the text; with
\* another kind open it is an ordinary token.
Fix ==
  /\ ph = "fix" /\ i <= Len(toks)
  /\ LET b == Br(toks[i]) IN
     /\ ops' = IF IsOpener(b) THEN Append(ops, b)
               ELSE IF IsCloser(b) /\ ops # <<>> /\ ops[Len(ops)] = OpenerOf(b)
               THEN SubSeq(ops, 1, Len(ops) - 1) ELSE ops
     /\ pre' = IF IsCloser(b) /\ ops = <<>> THEN <<OpenerOf(b)>> \o pre ELSE pre
  /\ i' = i + 1
  /\ UNCHANGED <<ci, ph, toks, fr, aux, tree>>

FixDone ==
  /\ ph = "fix" /\ i > Len(toks)
  /\ LET n == Len(ops)
         suf == [k \in 1..n |-> Inserted(Partner(ops[n + 1 - k]))]
                \o (IF n > 0 /\ PyLang(Lang(ci))
                    THEN <<[t |-> "NEWLINE", s |-> <<NL>>, r |-> <<>>]>> ELSE <<>>)
     IN /\ toks' = [k \in 1..Len(pre) |-> Inserted(pre[k])] \o toks \o suf
        /\ aux' = <<Len(pre), Len(suf)>>
        /\ fr' = <<[lo |-> 0, b |-> 0, kids |-> <<>>]>>
  /\ ph' = "match" /\ i' = 1 /\ ops' = <<>>
  /\ UNCHANGED <<ci, pre, tree>>

Top(f) == f[Len(f)]
AddKid(f, nd) == [f EXCEPT ![Len(f)].kids = Append(@, nd)]

\* One token of bracket matching.
MatchStep(p, p2) ==
  /\ ph = p /\ i <= Len(toks)
  /\ LET b == Br(toks[i]) IN
     IF IsOpener(b)
     THEN fr' = Append(fr, [lo |-> i - 1, b |-> b, kids |-> <<>>])
     ELSE IF IsCloser(b) /\ Len(fr) > 1 /\ Top(fr).b = OpenerOf(b)
     THEN LET f == Top(fr)
              nd == Node("paired", f.lo, i,
                      << Node("left", f.lo, f.lo + 1, <<>>),
                         Node("middle", f.lo + 1, i - 1, f.kids),
                         Node("right", i - 1, i, <<>>) >>)
          IN fr' = AddKid(SubSeq(fr, 1, Len(fr) - 1), nd)
     ELSE fr' = AddKid(fr, Node("sibling", i - 1, i, <<>>))
  /\ i' = i + 1
  /\ UNCHANGED <<ci, ph, toks, ops, pre, aux, tree>>

MatchDone(p) ==
  /\ ph = p /\ i > Len(toks)
  /\ tree' = Node("root", 0, Len(toks), fr[1].kids)
  /\ IF Lang(ci) = "python" /\ p = "match"
     THEN /\ ph' = "lines" /\ i' = 1
          /\ fr' = <<>> /\ pre' = <<>>       \* pre: output tokens from here on
          /\ ops' = <<0>>                    \* current block depth
     ELSE ph' = "split" /\ UNCHANGED <<i, fr, pre, ops>>
  /\ UNCHANGED <<ci, toks, aux>>

\* Last root child of the logical line that starts with root child k.
RECURSIVE LineEnd(_, _)
LineEnd(t, k) ==
  IF k >= Len(Kids(t)) THEN Len(Kids(t))
  ELSE IF toks[Hi(Kids(t)[k])].s = <<NL>> THEN k ELSE LineEnd(t, k + 1)

\* Insert the closings of n blocks before the newline that ends `out'.
Dedent(out, n) == SubSeq(out, 1, Len(out) - 1) \o [k \in 1..n |-> DED]
                  \o <<out[Len(out)]>>

Line ==
  /\ ph = "lines" /\ i <= Len(Kids(tree))
  /\ LET e    == LineEnd(tree, i)
         part == SubSeq(toks, Lo(Kids(tree)[i]) + 1, Hi(Kids(tree)[e]))
         str  == Flat([k \in 1..Len(part) |-> part[k].s])
         ind  == LeadingSpace(str) \div Spi(ci)
         cur  == ops[1]
     IN /\ IF AllSpace(str)
           THEN pre' = pre \o part /\ ops' = ops
           ELSE /\ ops' = <<ind>>
                /\ pre' = IF ind > cur THEN pre \o [k \in 1..(ind - cur) |-> IND] \o part
                          ELSE IF ind < cur THEN Dedent(pre, cur - ind) \o part
                          ELSE pre \o part
        /\ i' = e + 1
  /\ UNCHANGED <<ci, ph, toks, fr, aux, tree>>

LinesDone ==
  /\ ph = "lines" /\ i > Len(Kids(tree))
  /\ toks' = IF ops[1] > 0 THEN Dedent(pre, ops[1]) ELSE pre
  /\ ph' = "match2" /\ i' = 1 /\ pre' = <<>> /\ ops' = <<>>
  /\ fr' = <<[lo |-> 0, b |-> 0, kids |-> <<>>]>>
  /\ UNCHANGED <<ci, aux, tree>>

----------------------------------------------------------------------------
\* Statement splitting.
RECURSIVE Groups(_, _, _)
Groups(l, ch, acc) ==        \* acc: the group being collected
  IF ch = <<>> THEN (IF acc = <<>> THEN <<>> ELSE <<acc>>)
  ELSE LET h == Head(ch) IN
       IF NLen(h) = 1 /\ IsSplitter(l, toks[Lo(h) + 1])
       THEN <<Append(acc, h)>> \o Groups(l, Tail(ch), <<>>)
       ELSE Groups(l, Tail(ch), Append(acc, h))

HasSplitter(l, ch) == \E k \in 1..Len(ch) :
                         NLen(ch[k]) = 1 /\ IsSplitter(l, toks[Lo(ch[k]) + 1])

GroupNode(g) == Node("split", Lo(g[1]), Hi(g[Len(g)]), g)

RECURSIVE SplitNode(_, _)
SplitNode(l, n) ==
  IF /\ Kind(n) = "paired"
     /\ Br(toks[Lo(n) + 1]) \in UnsplittableOpener(l)
  THEN n
  ELSE LET ch == Kids(n)
           new == [k \in 1..Len(ch) |->
                     IF NLen(ch[k]) > 1 THEN SplitNode(l, ch[k]) ELSE ch[k]]
       IN IF HasSplitter(l, ch) /\ Kind(n) # "paired"
          THEN LET gs == Groups(l, new, <<>>)
               IN Node(Kind(n), Lo(n), Hi(n), [k \in 1..Len(gs) |-> GroupNode(gs[k])])
          ELSE Node(Kind(n), Lo(n), Hi(n), new)

Split ==
  /\ ph = "split"
  /\ tree' = IF Splits(Lang(ci)) THEN SplitNode(Lang(ci), tree) ELSE tree
  /\ ph' = IF Lang(ci) = "python" THEN "nest" ELSE "done"
  /\ UNCHANGED <<ci, i, toks, ops, pre, fr, aux>>

\* A statement group that holds an indented block becomes a child of the group
\* right before it, whose former children are grouped.
IsBlock(n) == Kind(n) = "paired" /\ toks[Lo(n) + 1].t = "PYTHON_INDENT"
HoldsBlock(g) == Kind(g) = "split" /\ \E k \in 1..Len(Kids(g)) : IsBlock(Kids(g)[k])

RECURSIVE NestNode(_)
NestList(ch) ==
  LET F[k \in 0..Len(ch)] ==
        IF k = 0 THEN <<>>
        ELSE LET g == NestNode(ch[k])
                 out == F[k - 1]
             IN IF HoldsBlock(ch[k]) /\ k > 1 /\ Kind(ch[k - 1]) = "split"
                THEN LET p == out[Len(out)]
                     IN SubSeq(out, 1, Len(out) - 1) \o
                        << Node("split", Lo(p), Hi(g),
                             <<Node("split", Lo(p), Hi(p), Kids(p)), g>>) >>
                ELSE Append(out, g)
  IN F[Len(ch)]
NestNode(n) == Node(Kind(n), Lo(n), Hi(n), NestList(Kids(n)))

Nest ==
  /\ ph = "nest"
  /\ tree' = NestNode(tree)
  /\ ph' = "done"
  /\ UNCHANGED <<ci, i, toks, ops, pre, fr, aux>>

PNext == \/ Lex \/ LexDone \/ Fix \/ FixDone
         \/ MatchStep("match", "match") \/ MatchDone("match")
         \/ Line \/ LinesDone
         \/ MatchStep("match2", "match2") \/ MatchDone("match2")
         \/ Split \/ Nest

----------------------------------------------------------------------------
\* Properties of the design.
Raws(ts) == Flat([k \in 1..Len(ts) |-> ts[k].r])

RECURSIVE Leaves(_)
Leaves(n) == IF Kids(n) = <<>> THEN <<n>>
             ELSE Flat([k \in 1..Len(Kids(n)) |-> Leaves(Kids(n)[k])])

\* Depth-first order: label, range, index among its siblings, and the position of
\* the parent in that order; `pos' is the position of n.
RECURSIVE Walk(_, _, _, _)
Walk(n, idx, parent, pos) ==
  LET ch == Kids(n)
      W[k \in 0..Len(ch)] ==
        IF k = 0 THEN <<<<Kind(n), Lo(n), Hi(n), idx, parent>>>>
        ELSE LET p == W[k - 1] IN p \o Walk(ch[k], k - 1, pos, pos + Len(p))
  IN W[Len(ch)]

RECURSIVE ValidTree(_)
ValidTree(n) ==
  LET ch == Kids(n) IN
  ch # <<>> =>
    /\ Lo(ch[1]) = Lo(n) /\ Hi(ch[Len(ch)]) = Hi(n)
    /\ \A k \in 1..(Len(ch) - 1) : Hi(ch[k]) = Lo(ch[k + 1])
    /\ \A k \in 1..Len(ch) : ValidTree(ch[k])
    /\ Kind(n) = "paired" =>
         /\ Len(ch) = 3 /\ Kind(ch[1]) = "left" /\ Kind(ch[2]) = "middle"
         /\ Kind(ch[3]) = "right"
         /\ IsOpener(Br(toks[Lo(n) + 1]))
         /\ IsCloser(Br(toks[Hi(n)]))
         /\ OpenerOf(Br(toks[Hi(n)])) = Br(toks[Lo(n) + 1])

\* Lexing consumes the text from left to right without loss.
InvLex == ph = "lex" =>
            Flat([k \in 1..Len(toks) |-> toks[k].s]) = SubSeq(FullText(ci), 1, i - 1)
\* The raw text is the input text in every later phase.
InvText == ph \in {"fix", "match", "match2", "split", "nest", "done"} =>
             Raws(toks) = Text(ci)
\* Every bracket that was opened is closed: corrections make the text balanced.
InvBalanced == ph \in {"match", "match2"} /\ i > Len(toks) => Len(fr) = 1
InvTree == ph = "done" => ValidTree(tree) /\ Lo(tree) = 0 /\ Hi(tree) = Len(toks)
\* Blocks open and close, and none is left open.
InvBlocks == ph = "done" =>
   Cardinality({k \in 1..Len(toks) : toks[k].t = "PYTHON_INDENT"})
     = Cardinality({k \in 1..Len(toks) : toks[k].t = "PYTHON_DEDENT"})
=============================================================================
