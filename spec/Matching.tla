------------------------------ MODULE Matching ------------------------------
(***************************************************************************)
(* Bracket matching, correction and statement splitting over arbitrary     *)
(* tokens and an arbitrary list of bracket pairs (the language presets of  *)
(* PseudoParser.tla are instances).  A behaviour handles one sequence:     *)
(*                                                                         *)
(*   fix    one token per step, collecting the corrections                 *)
(*   match  one token per step over the corrected sequence                 *)
(*   split  group siblings into statements                                 *)
(*   done / error (strict matching only)                                   *)
(*                                                                         *)
(* A case is [toks, pairs, seps, closed, strict, fixed]: numbers for       *)
(* tokens, pairs <<opener, closer>>, the separators, the pairs that are    *)
(* not split inside, whether to match strictly, and whether to correct     *)
(* the sequence first.                                                     *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
VARIABLES mc, mph, mi, mt, mst, mpre, mtree
mvars == <<mc, mph, mi, mt, mst, mpre, mtree>>

MNode(k, lo, hi, ch) == <<k, lo, hi, ch>>
Ops(c)  == {c.pairs[k][1] : k \in 1..Len(c.pairs)}
Cls(c)  == {c.pairs[k][2] : k \in 1..Len(c.pairs)}
CloserFor(c, o) == CHOOSE x \in Cls(c) : \E k \in 1..Len(c.pairs) : c.pairs[k] = <<o, x>>
OpenerFor(c, x) == CHOOSE o \in Ops(c) : \E k \in 1..Len(c.pairs) : c.pairs[k] = <<o, x>>
Frame(lo, o) == [lo |-> lo, o |-> o, kids |-> <<>>]
Last(s) == s[Len(s)]
Front(s) == SubSeq(s, 1, Len(s) - 1)
Give(st, nd) == [st EXCEPT ![Len(st)].kids = Append(@, nd)]

MInit(c) == /\ mc = c /\ mi = 1 /\ mt = c.toks /\ mst = <<>> /\ mpre = <<>> /\ mtree = <<>>
            /\ mph = "fix"

\* A closer closes the innermost opener if that is its own; with nothing open it
\* asks for its opener in front; otherwise it is an ordinary token.
MFix ==
  /\ mph = "fix" /\ mi <= Len(mt)
  /\ LET x == mt[mi] IN
     /\ mst' = IF x \in Ops(mc) THEN Append(mst, x)
               ELSE IF x \in Cls(mc) /\ mst # <<>> /\ Last(mst) = OpenerFor(mc, x)
               THEN Front(mst) ELSE mst
     /\ mpre' = IF x \in Cls(mc) /\ x \notin Ops(mc) /\ mst = <<>>
                THEN <<OpenerFor(mc, x)>> \o mpre ELSE mpre
  /\ mi' = mi + 1 /\ UNCHANGED <<mc, mph, mt, mtree>>

\* Corrections: openers in front, closers (innermost first) behind.
MFixed ==
  /\ mph = "fix" /\ mi > Len(mt)
  /\ LET n == Len(mst)
         suf == [k \in 1..n |-> CloserFor(mc, mst[n + 1 - k])]
     IN /\ mtree' = <<mpre, suf>>                      \* the corrections, for now
        /\ mt' = IF mc.fixed THEN mpre \o mt \o suf ELSE mt
  /\ mst' = <<Frame(0, -1)>> /\ mph' = "match" /\ mi' = 1
  /\ UNCHANGED <<mc, mpre>>

MMatch ==
  /\ mph = "match" /\ mi <= Len(mt)
  /\ LET x == mt[mi]
         top == Last(mst)
     IN IF x \in Ops(mc)
        THEN mst' = Append(mst, Frame(mi - 1, x)) /\ mph' = mph
        ELSE IF x \in Cls(mc) /\ Len(mst) > 1 /\ top.o = OpenerFor(mc, x)
        THEN /\ mst' = Give(Front(mst),
                  MNode("paired", top.lo, mi,
                    << MNode("left", top.lo, top.lo + 1, <<>>),
                       MNode("middle", top.lo + 1, mi - 1, top.kids),
                       MNode("right", mi - 1, mi, <<>>) >>))
             /\ mph' = mph
        ELSE IF x \in Cls(mc) /\ mc.strict
        THEN mph' = "error" /\ mst' = mst
        ELSE mst' = Give(mst, MNode("sibling", mi - 1, mi, <<>>)) /\ mph' = mph
  /\ mi' = mi + 1 /\ UNCHANGED <<mc, mt, mpre, mtree>>

MMatched ==
  /\ mph = "match" /\ mi > Len(mt)
  /\ IF Len(mst) > 1
     THEN mph' = "error" /\ mpre' = mtree /\ mtree' = mtree     \* only an uncorrected one
     ELSE /\ mph' = "split" /\ mpre' = mtree
          /\ mtree' = MNode("root", 0, Len(mt), mst[1].kids)
  /\ UNCHANGED <<mc, mi, mt, mst>>

MSep(n) == n[3] - n[2] = 1 /\ \E k \in 1..Len(mc.seps) : mc.seps[k] = mt[n[2] + 1]
RECURSIVE MGroups(_, _)
MGroups(ch, acc) ==
  IF ch = <<>> THEN (IF acc = <<>> THEN <<>> ELSE <<acc>>)
  ELSE IF MSep(Head(ch)) THEN <<Append(acc, Head(ch))>> \o MGroups(Tail(ch), <<>>)
  ELSE MGroups(Tail(ch), Append(acc, Head(ch)))
Closed(n) == n[1] = "paired"
             /\ \E k \in 1..Len(mc.closed) : mc.closed[k] = <<mt[n[2] + 1], mt[n[3]]>>
RECURSIVE MSplit(_)
MSplit(n) ==
  IF Closed(n) THEN n
  ELSE LET ch == n[4]
           new == [k \in 1..Len(ch) |-> IF ch[k][3] - ch[k][2] > 1 THEN MSplit(ch[k]) ELSE ch[k]]
       IN IF n[1] # "paired" /\ \E k \in 1..Len(ch) : MSep(ch[k])
          THEN LET gs == MGroups(new, <<>>)
               IN MNode(n[1], n[2], n[3], [k \in 1..Len(gs) |->
                    MNode("split", gs[k][1][2], Last(gs[k])[3], gs[k])])
          ELSE MNode(n[1], n[2], n[3], new)
MSplitStep == /\ mph = "split" /\ mph' = "done" /\ mst' = mtree   \* the unsplit tree is kept
              /\ mtree' = IF mc.seps = <<>> THEN mtree ELSE MSplit(mtree)
              /\ UNCHANGED <<mc, mi, mt, mpre>>

MNext == MFix \/ MFixed \/ MMatch \/ MMatched \/ MSplitStep

----------------------------------------------------------------------------
RECURSIVE Leaf(_)
Leaf(n) == IF n[4] = <<>> THEN {<<n[2], n[3]>>}
           ELSE UNION {Leaf(n[4][k]) : k \in 1..Len(n[4])}
RECURSIVE Tidy(_)
Tidy(n) ==
  LET ch == n[4] IN
  ch # <<>> =>
    /\ ch[1][2] = n[2] /\ Last(ch)[3] = n[3]
    /\ \A k \in 1..(Len(ch) - 1) : ch[k][3] = ch[k + 1][2]
    /\ \A k \in 1..Len(ch) : Tidy(ch[k])
    /\ n[1] = "paired" => \E k \in 1..Len(mc.pairs) : mc.pairs[k] = <<mt[n[2] + 1], mt[n[3]]>>
\* Corrected sequences always match; every token is a leaf; every pair is a listed one.
InvCorrected == mc.fixed /\ ~mc.strict => mph # "error"
InvLeaves == mph = "done" =>
               {r \in Leaf(mtree) : r[2] > r[1]} = {<<k - 1, k>> : k \in 1..Len(mt)}
InvTidy == mph \in {"split", "done"} => Tidy(mtree)
\* Splitting regroups and never changes what is where.
InvSplit == mph = "done" => Leaf(mtree) = Leaf(mst)
\* Nothing beyond what is needed is added.
InvNeeded == mph = "done" /\ mc.fixed =>
  LET k == Len(mpre[1]) + Len(mpre[2]) IN
  k <= Cardinality({j \in 1..Len(mc.toks) : mc.toks[j] \in Ops(mc) \cup Cls(mc)})
=============================================================================
