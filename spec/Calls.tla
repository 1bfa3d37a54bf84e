-------------------------------- MODULE Calls --------------------------------
(***************************************************************************)
(* Call-like expressions in a program tree, and what may be selected of them.  *)
(*                                                                             *)
(* In every sequence the nodes up to the first group are looked at.  If that    *)
(* group is a pair of round brackets directly after a token, and the sequence   *)
(* does not begin with "def" or "class", the nodes are a call: its name, the    *)
(* opening bracket, its arguments as one text, the closing bracket.  Otherwise  *)
(* the group is searched; so are all groups after it.                           *)
(***************************************************************************)
EXTENDS Select, Costs
TokN(txt, ty) == <<"TOK", txt, <<"=", ty>>, <<>>>>
RSn == <<"RS", <<>>, NoTy, <<>>>>
REn == <<"RE", <<>>, NoTy, <<>>>>
Dot == TokN(<<46>>, "CONTENT_LEAF")
Open == <<40>>
Close == <<41>>
WordDef == <<100, 101, 102>>
WordClass == <<99, 108, 97, 115, 115>>
WS == {9, 10, 11, 12, 13, 28, 29, 30, 31, 32}
Blank(s) == s # <<>> /\ \A j \in DOMAIN s : s[j] \in WS
Group(n) == K(n) = "GRP"
FirstGroup(s) == LET S == {j \in DOMAIN s : Group(s[j])} IN IF S = {} THEN 0 ELSE MinSet(S)
FirstReal(s) == LET S == {j \in DOMAIN s : K(s[j]) # "DEC"} IN IF S = {} THEN Len(s) + 1 ELSE MinSet(S)
Brackets(n) == /\ Group(n) /\ Ty(n) = <<"=", "MATCH">> /\ Len(Ch(n)) = 3
               /\ Ch(n)[1] = TokN(Open, "MATCH_LEFT")
IsCall(c) == /\ Len(c) >= 2 /\ c[1] \notin {TokN(WordDef, "CONTENT_LEAF"), TokN(WordClass, "CONTENT_LEAF")}
             /\ Brackets(c[Len(c)]) /\ K(c[Len(c) - 1]) = "TOK"
\* one node of the name
NamePart(n, known) ==
  IF K(n) = "TOK"
  THEN IF n = Dot THEN <<RSn, TokN(<<46>>, "ATTRIBUTE_DOT")>>
       ELSE <<TokN(Txt(n), IF Txt(n) \in known THEN "EXPECTED" ELSE "NOVEL")>>
  ELSE IF K(n) = "DEC" THEN IF Blank(Txt(n)) THEN <<n, RSn>> ELSE <<n>>
  ELSE <<>>
RECURSIVE Name(_, _)
Name(c, known) == IF c = <<>> THEN <<>> ELSE NamePart(Head(c), known) \o Name(Tail(c), known)
CallOf(c, known) ==
  LET args == TreeText(<<Ch(c[Len(c)])[2]>>) IN
  <<RSn>> \o Name(c, known)
  \o <<TokN(Open, "START_CALL"), REn,
       IF args = <<>> THEN TokN(<<>>, "EMPTY_ARGS") ELSE TokN(args, "ARGS"),
       TokN(Close, "END_CALL"), REn>>
RECURSIVE CallsIn(_, _), CallsInAll(_, _)
CallsInAll(s, known) == IF s = <<>> THEN <<>>
  ELSE (IF Group(Head(s)) THEN CallsIn(Ch(Head(s)), known) ELSE <<>>) \o CallsInAll(Tail(s), known)
CallsIn(s, known) ==
  LET g == FirstGroup(s) IN
  IF g = 0 THEN <<>>
  ELSE LET c == SubSeq(s, FirstReal(s), g) IN
       (IF IsCall(c) THEN <<CallOf(c, known)>> ELSE CallsIn(Ch(s[g]), known))
       \o CallsInAll(SubSeq(s, g + 1, Len(s)), known)
\* words of the tree that begin before position loc
RECURSIVE Words(_, _)
Words(leaves, loc) ==
  IF leaves = <<>> \/ loc <= 0 THEN {}
  ELSE (IF K(Head(leaves)) = "TOK" THEN {Txt(Head(leaves))} ELSE {})
       \cup Words(Tail(leaves), loc - Len(Txt(Head(leaves))))
RECURSIVE Leaves(_)
Leaves(s) == IF s = <<>> THEN <<>>
  ELSE (IF Group(Head(s)) THEN Leaves(Ch(Head(s)))
        ELSE IF K(Head(s)) \in {"TOK", "DEC"} THEN <<Head(s)>> ELSE <<>>) \o Leaves(Tail(s))
\* the start of the line the cursor is in (just before its newline)
LineStart(txt, loc) ==
  LET S == {j \in 1..(IF loc < Len(txt) THEN loc ELSE Len(txt)) : txt[j] = 10}
  IN IF S = {} THEN 0 ELSE (CHOOSE j \in S : \A k \in S : k <= j) - 1
\* builtin: words known to the language
CallTree(s, loc, builtin) ==
  LET known == Words(Leaves(s), loc) \cup builtin
      cs == CallsIn(Cut(s, LineStart(TreeText(s), loc)), known)
      RECURSIVE lay(_)
      lay(k) == IF k > Len(cs) THEN <<>>
                ELSE << <<"GRP", <<>>, <<"=", "API_CALL">>, cs[k]>>, <<"DEC", <<10>>, NoTy, <<>>>> >> \o lay(k + 1)
  IN lay(1)
---------------------------------------------------------------------------
(* Value of a selection (in 1/D), threshold P/D.                               *)
CallCost(p, L, v, t, M, P, D) ==
  SelectCostBy(p, L, v, t, M, LAMBDA n : Weight(n.ty[2]) * (D - P), LAMBDA n : Weight(n.ty[2]) * P)
\* The rules that select without looking at samples: which markers are taken.
GroupRange(L, x) == x..LastBelow(L, x)
RSs(L, x) == {y \in GroupRange(L, x) : L[y].k = "RS"}
REs(L, x) == {y \in GroupRange(L, x) : L[y].k = "RE"}
Decs(L, x) == {y \in GroupRange(L, x) : L[y].k = "DEC"}
MaxSet(S) == CHOOSE y \in S : \A z \in S : z <= y
ShortStart(L, x) == MinSet({y \in RSs(L, x) : \A z \in Decs(L, x) : z < y})
ShortEnd(L, x) == MinSet(REs(L, x))
NovelShort(L, x) == \E y \in ShortStart(L, x)..ShortEnd(L, x) : L[y].ty = <<"=", "NOVEL">>
Taken(L, rule) ==
  LET G == {x \in DOMAIN L : L[x].k = "GRP"} IN
  CASE rule = "all_calls_full" -> UNION {{MinSet(RSs(L, x)), MaxSet(REs(L, x))} : x \in G}
    [] rule = "all_calls_shorter" -> UNION {{ShortStart(L, x), ShortEnd(L, x)} : x \in G}
    [] rule = "novel_calls_shorter" -> UNION {{ShortStart(L, x), ShortEnd(L, x)} : x \in {y \in G : NovelShort(L, y)}}
RuleVector(L, taken) == [x \in DOMAIN L |->
  IF L[x].k \notin {"RS", "RE"} THEN NA
  ELSE IF x \in taken THEN T
  ELSE LET before == {y \in taken : y < x}
           inside == before # {} /\ L[MaxSet(before)].k = "RS"
       IN IF L[x].k = "RS" THEN (IF inside THEN NA ELSE F) ELSE (IF inside THEN F ELSE NA)]
=============================================================================
