------------------------------- MODULE Trees -------------------------------
(***************************************************************************)
(* Suggestion trees and the transforms that prepare them.                  *)
(* A node is <<kind, text, type, children>>:                               *)
(*   TOK editable token, DEC decoration, GRP group,                        *)
(*   RS / RE a region may start / end here, EE the suggestion may end here *)
(* A tree is a sequence of nodes.  Text is a sequence of code points; the  *)
(* type is <<"=", name>> or <<"(", name1, name2, ...>> (a tuple of names). *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

K(n) == n[1]   Txt(n) == n[2]   Ty(n) == n[3]   Ch(n) == n[4]
NoTy == <<>>
RS == <<"RS", <<>>, NoTy, <<>>>>
RE == <<"RE", <<>>, NoTy, <<>>>>
EE == <<"EE", <<>>, NoTy, <<>>>>
Controls == {"RS", "RE", "EE"}
WithCh(n, ch) == <<n[1], n[2], n[3], ch>>
WithTxt(n, t) == <<n[1], t, n[3], n[4]>>
WithTy(n, t)  == <<n[1], n[2], t, n[4]>>

\* Concatenation of f(x) over a sequence.
RECURSIVE CatMap(_, _)
CatMap(f(_), s) == IF s = <<>> THEN <<>> ELSE f(Head(s)) \o CatMap(f, Tail(s))

RECURSIVE TreeText(_)
TreeText(t) ==
  LET F(n) == IF K(n) = "GRP" THEN TreeText(Ch(n)) ELSE Txt(n) IN CatMap(F, t)

MaxI(a, b) == IF a >= b THEN a ELSE b
RECURSIVE Depth(_)
Depth(t) == IF t = <<>> THEN 1
            ELSE MaxI(IF K(Head(t)) = "GRP" THEN 1 + Depth(Ch(Head(t))) ELSE 1,
                      Depth(Tail(t)))

----------------------------------------------------------------------------
\* All groups inlined.
RECURSIVE Flatten(_)
Flatten(t) == LET F(n) == IF K(n) = "GRP" THEN Flatten(Ch(n)) ELSE <<n>>
              IN CatMap(F, t)

\* Groups whose only child is a group or token merge with that child; the
\* types met on the way are collected.
Tup(ty) == <<"(">> \o Tail(ty)
RECURSIVE SingletonNode(_)
SingletonNode(n) ==
  IF K(n) = "GRP"
  THEN IF Len(Ch(n)) = 1 /\ K(Ch(n)[1]) \in {"GRP", "TOK"}
       THEN LET c == SingletonNode(Ch(n)[1])
            IN WithTy(c, Tup(Ty(n)) \o Tail(Ty(c)))
       ELSE <<"GRP", <<>>, Tup(Ty(n)),
              [k \in 1..Len(Ch(n)) |-> SingletonNode(Ch(n)[k])]>>
  ELSE IF K(n) = "TOK" THEN WithTy(n, Tup(Ty(n)))
  ELSE n
Singletons(t) == [k \in 1..Len(t) |-> SingletonNode(t[k])]

\* Without the nodes where decisions are made.
RECURSIVE Strip(_)
Strip(t) == LET F(n) == IF K(n) = "GRP" THEN <<WithCh(n, Strip(Ch(n)))>>
                        ELSE IF K(n) \in Controls THEN <<>> ELSE <<n>>
            IN CatMap(F, t)

\* Without the first `off' characters.  Everything before the cut (directly
\* after the last of these characters) goes, including markers; a group goes when the cut lies behind it.
\* Result: <<remaining nodes, characters still to skip or -1 when past>>
RECURSIVE CutSeq(_, _)
CutSeq(t, off) ==
  IF t = <<>> THEN << <<>>, off >>
  ELSE IF off = -1 THEN << t, -1 >>
  ELSE LET n == Head(t) IN
       IF K(n) = "GRP"
       THEN LET r == CutSeq(Ch(n), off)
                rest == CutSeq(Tail(t), r[2])
            IN << (IF r[2] = -1 THEN <<WithCh(n, r[1])>> ELSE <<>>) \o rest[1], rest[2] >>
       ELSE IF K(n) \in Controls THEN CutSeq(Tail(t), off)
       ELSE LET len == Len(Txt(n)) IN
            IF off < len
            THEN << <<WithTxt(n, SubSeq(Txt(n), off + 1, len))>> \o Tail(t), -1 >>
            ELSE IF off = len THEN << Tail(t), -1 >>
            ELSE CutSeq(Tail(t), off - len)
Cut(t, off) == IF off = 0 THEN t ELSE CutSeq(t, off)[1]

\* Nodes in document order with their path, optionally groups before / after.
RECURSIVE Walk(_, _, _, _)
Walk(t, before, after, prefix) ==
  LET G(k) == LET n == t[k]  p == Append(prefix, k - 1) IN
        IF K(n) = "GRP"
        THEN (IF before THEN << <<K(n), p, "GROUP_BEFORE_CHILDREN">> >> ELSE <<>>)
             \o Walk(Ch(n), before, after, p)
             \o (IF after THEN << <<K(n), p, "GROUP_AFTER_CHILDREN">> >> ELSE <<>>)
        ELSE << <<K(n), p, "LEAF">> >>
  IN CatMap(G, [k \in 1..Len(t) |-> k])

----------------------------------------------------------------------------
\* Markers.
RECURSIVE EarlyExits(_, _, _)
EarlyExits(t, within, atstart) ==
  LET F(n) == IF K(n) = "GRP" /\ within
              THEN <<WithCh(n, EarlyExits(Ch(n), TRUE, FALSE)), EE>>
              ELSE IF K(n) \in {"TOK", "GRP"} THEN <<n, EE>> ELSE <<n>>
  IN (IF atstart THEN <<EE>> ELSE <<>>) \o CatMap(F, t)

\* filt: which nodes may be surrounded
NewLineTok(n) == K(n) = "TOK" /\ Txt(n) = <<10>>
Allowed(filt, n) ==
  CASE filt = "all" -> TRUE
    [] filt = "none" -> FALSE
    [] filt = "tokens" -> K(n) = "TOK"
    [] filt = "pseudo" ->
         /\ Ty(n) \notin {<<"=", "MATCH_LEFT">>, <<"=", "MATCH_INNER">>, <<"=", "MATCH_RIGHT">>}
         /\ ~NewLineTok(n)

RECURSIVE RegionOptions(_, _, _)
RegionOptions(t, empties, filt) ==
  LET F(n) ==
        IF K(n) \in {"TOK", "GRP"}
        THEN LET m == IF K(n) = "GRP"
                      THEN WithCh(n, RegionOptions(Ch(n), empties, filt)) ELSE n
             IN IF Allowed(filt, n)
                THEN <<RS>> \o (IF empties THEN <<RE>> ELSE <<>>) \o <<m, RE>>
                ELSE <<m>>
        ELSE <<n>>
  IN CatMap(F, t) \o (IF empties THEN <<RS, RE>> ELSE <<>>)

RECURSIVE SingleRegions(_)
SingleRegions(t) ==
  LET F(n) ==
        IF K(n) \in {"TOK", "GRP"}
        THEN LET m == IF K(n) = "GRP" THEN WithCh(n, SingleRegions(Ch(n))) ELSE n
             IN << <<"GRP", <<>>, <<"=", "region_scope">>, <<RS, m, RE>>>> >>
        ELSE <<n>>
  IN CatMap(F, t)

----------------------------------------------------------------------------
\* All trees with n nodes over a set of leaves and group types.
RECURSIVE TreesOf(_, _, _)
TreesOf(n, Leaves, GTypes) ==
  IF n = 0 THEN { <<>> }
  ELSE UNION { { <<h>> \o t : h \in
                   (IF j = 1 THEN Leaves ELSE {})
                     \cup { <<"GRP", <<>>, g, c>> : g \in GTypes,
                             c \in TreesOf(j - 1, Leaves, GTypes) },
                 t \in TreesOf(n - j, Leaves, GTypes) } : j \in 1..n }
=============================================================================
