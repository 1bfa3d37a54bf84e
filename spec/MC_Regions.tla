----------------------------- MODULE MC_Regions -----------------------------
(* Both definitions agree: grow a tree, then decide its nodes one by one with  *)
(* arbitrary values; the walker refuses exactly the ill-formed vectors.        *)
EXTENDS Regions, IOUtils
MaxNodes == atoi(IOEnv.MAXNODES)
Ls == { <<"TOK", <<97>>, <<"=", "t">>, <<>>>>, <<"DEC", <<32>>, NoTy, <<>>>>, RS, RE, EE,
        <<"GRP", <<>>, <<"=", "g">>, <<>>>> }
VARIABLES t, v, w, dead
vars == <<t, v, w, dead>>
\* append at the end of some open sequence: every tree arises exactly so
RECURSIVE Appends(_, _)
Appends(s, x) == {Append(s, x)} \cup
   IF s # <<>> /\ K(Last(s)) = "GRP"
   THEN {Append(Front(s), WithCh(Last(s), c)) : c \in Appends(Ch(Last(s)), x)} ELSE {}
Init == t = <<>> /\ v = <<>> /\ w = WStart /\ dead = FALSE
Grow == v = <<>> /\ Size(t) < MaxNodes /\ \E x \in Ls : t' \in Appends(t, x)
        /\ UNCHANGED <<v, w, dead>>
Decide == LET L == Listing(t)  x == Len(v) + 1 IN
  /\ x <= Len(L)
  /\ \E d \in (IF L[x].k = "DEC" THEN {NA} ELSE Values) :
       /\ v' = Append(v, d)
       /\ IF dead \/ d \notin MayDecide(L, w, x) THEN dead' = TRUE /\ w' = WStart
          ELSE dead' = FALSE /\ w' = After(L, w, x, d)
  /\ UNCHANGED t
Next == Grow \/ Decide
Spec == Init /\ [][Next]_vars
Agree == Len(v) = Size(t) /\ v # <<>> =>
           WellFormed(Listing(t), v) = (~dead /\ MayFinish(w))
\* what is shown is a prefix of the suggestion's text, unless a region is empty
ShowsPrefix == (Len(v) = Size(t) /\ v # <<>> /\ ~dead /\ MayFinish(w)) =>
  LET L == Listing(t)
      c == Chars(Pieces(L, v, <<>>))
      s == [j \in DOMAIN c |-> c[j][1]] IN
  /\ IsPrefix(s, TreeText(t))
  /\ (~Exited(L, v) => s = TreeText(t))
=============================================================================
