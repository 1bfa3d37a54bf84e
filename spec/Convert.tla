------------------------------ MODULE Convert ------------------------------
(***************************************************************************)
(* From a finished parse to a suggestion tree.                             *)
(***************************************************************************)
EXTENDS PseudoParser, Subtokens

PText(n) == Flat([k \in 1..NLen(n) |-> toks[Lo(n) + k].r])
PType(n) ==
  CASE Kind(n) = "root" -> "ROOT"
    [] Kind(n) = "paired" -> "MATCH"
    [] Kind(n) = "left" -> "MATCH_LEFT"
    [] Kind(n) = "right" -> "MATCH_RIGHT"
    [] Kind(n) = "middle" -> "MATCH_INNER"
    [] Kind(n) = "split" -> "SPLIT_GROUP"
    [] OTHER -> LET c == PText(n) IN
         IF c = <<>> THEN "NON_CONTENT_LEAF"
         ELSE IF AllSpace(c) THEN "WHITE_SPACE_LEAF"
         ELSE IF toks[Lo(n) + 1].t = "STRING" THEN "STRING_LITERAL"
         ELSE "CONTENT_LEAF"

SToken(c, ty) == <<"TOK", c, <<"=", ty>>, <<>>>>
SDecor(c) == <<"DEC", c, <<>>, <<>>>>
SGroup(ch, ty) == <<"GRP", <<>>, <<"=", ty>>, ch>>
SubNodes(c) == LET s == Subtokenize(c)
               IN [k \in 1..Len(s) |-> SToken(s[k], "subtoken")]

\* decor / sub: the node types that become decorations / subtoken groups
RECURSIVE ConvertNode(_, _, _)
ConvertNode(n, decor, sub) ==
  LET ty == PType(n) IN
  IF ty \in decor THEN SDecor(PText(n))
  ELSE IF ty \in sub THEN SGroup(SubNodes(PText(n)), ty)
  ELSE IF Kids(n) = <<>> THEN SToken(PText(n), ty)
  ELSE SGroup([k \in 1..Len(Kids(n)) |-> ConvertNode(Kids(n)[k], decor, sub)], ty)

RECURSIVE SText(_)
SText(n) == IF n[1] = "GRP" THEN Flat([k \in 1..Len(n[4]) |-> SText(n[4][k])]) ELSE n[2]

RECURSIVE SFlatten(_)
SFlatten(t) == Flat([k \in 1..Len(t) |->
                  IF t[k][1] = "GRP" THEN SFlatten(t[k][4]) ELSE <<t[k]>>])

HelperDecor == {"WHITE_SPACE_LEAF", "NON_CONTENT_LEAF"}
InvConvertText == ph = "done" =>
   /\ SText(ConvertNode(tree, HelperDecor, {"STRING_LITERAL"})) = Text(ci)
   /\ SText(ConvertNode(tree, {}, {})) = Text(ci)
=============================================================================
