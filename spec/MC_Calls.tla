------------------------------ MODULE MC_Calls ------------------------------
(* Extraction of calls on all small programs.                                  *)
EXTENDS Calls, IOUtils
MaxNodes == atoi(IOEnv.MAXNODES)
Paren(kids) == <<"GRP", <<>>, <<"=", "MATCH">>,
   <<TokN(Open, "MATCH_LEFT"), <<"GRP", <<>>, <<"=", "MATCH_INNER">>, kids>>, TokN(Close, "MATCH_RIGHT")>>>>
Ls == {TokN(<<97>>, "CONTENT_LEAF"), TokN(<<98>>, "CONTENT_LEAF"), Dot, TokN(WordDef, "CONTENT_LEAF"),
       <<"DEC", <<32>>, NoTy, <<>>>>, <<"DEC", <<10>>, NoTy, <<>>>>, Paren(<<>>)}
VARIABLES t, n, loc
vars == <<t, n, loc>>
\* x at the end of s or inside the brackets at its end
RECURSIVE Appends(_, _)
Appends(s, x) == {Append(s, x)} \cup
   IF s # <<>> /\ K(Last(s)) = "GRP"
   THEN {Append(Front(s), Paren(c)) : c \in Appends(Ch(Ch(Last(s))[2]), x)} ELSE {}
Init == t = <<>> /\ n = 0 /\ loc = -1
Grow == loc = -1 /\ n < MaxNodes /\ n' = n + 1 /\ (\E x \in Ls : t' \in Appends(t, x)) /\ UNCHANGED loc
Place == loc = -1 /\ loc' \in 0..Len(TreeText(t)) /\ UNCHANGED <<t, n>>
Next == Grow \/ Place
Spec == Init /\ [][Next]_vars
R == CallTree(t, loc, {})
Placed == loc >= 0
Groups == {k \in DOMAIN R : K(R[k]) = "GRP"}
L == Listing(R)
OneGroupPerCall == Placed => \A k \in DOMAIN R : IF k % 2 = 1 THEN K(R[k]) = "GRP" ELSE R[k] = <<"DEC", <<10>>, NoTy, <<>>>>
\* what can be selected is text of the program, in its order, after the line start
RECURSIVE Occurs(_, _)
Occurs(small, big) ==   \* small is a subsequence of big
  IF small = <<>> THEN TRUE ELSE IF big = <<>> THEN FALSE
  ELSE IF Head(small) = Head(big) THEN Occurs(Tail(small), Tail(big)) ELSE Occurs(small, Tail(big))
Piece(s, big) == \E j \in 0..(Len(big) - Len(s)) : SubSeq(big, j + 1, j + Len(s)) = s
Program == TreeText(Cut(t, LineStart(TreeText(t), loc)))
CallsAreText == Placed => /\ \A k \in Groups : Piece(TreeText(Ch(R[k])), Program)
                          /\ Occurs(TreeText([k \in 1..Cardinality(Groups) |-> R[2 * k - 1]]), Program)
MarkersAreRight == Placed => \A k \in Groups : LET c == Ch(R[k]) IN
  \A j \in DOMAIN c :
    /\ K(c[j]) = "RS" => \/ j = 1 \/ (K(c[j - 1]) = "DEC" /\ Blank(Txt(c[j - 1])))
                         \/ Ty(c[j + 1]) = <<"=", "ATTRIBUTE_DOT">>
    /\ K(c[j]) = "RE" => Ty(c[j - 1]) \in {<<"=", "START_CALL">>, <<"=", "END_CALL">>}
NoDefinitions == Placed => \A k \in Groups :
  \A j \in DOMAIN Ch(R[k]) : K(Ch(R[k])[j]) = "TOK" => Txt(Ch(R[k])[2]) # WordDef
KnownAreSeen == Placed => \A k \in Groups : \A j \in DOMAIN Ch(R[k]) :
  Ty(Ch(R[k])[j]) = <<"=", "EXPECTED">> => Txt(Ch(R[k])[j]) \in Words(Leaves(t), loc)
\* nothing is selectable twice: every bracket pair is the bracket of at most one call
RECURSIVE NBr(_)
NBr(s) == IF s = <<>> THEN 0 ELSE (IF Brackets(Head(s)) THEN 1 ELSE 0) + NBr(Ch(Head(s))) + NBr(Tail(s))
AtMostOnce == Placed => Cardinality(Groups) <= NBr(t)
\* the rules are decisions and nest as named
Complete(v) == [x \in DOMAIN L |-> IF L[x].k \in {"TOK", "GRP"}
   THEN (IF \E r \in RegionsOf(L, v) : r[1] < x /\ x < r[2] THEN T ELSE F) ELSE v[x]]
Rule(r) == Complete(RuleVector(L, Taken(L, r)))
RulesAreDecisions == Placed => \A r \in {"all_calls_full", "all_calls_shorter", "novel_calls_shorter"} :
  WellFormed(L, Rule(r))
Covered(r) == {x \in DOMAIN L : L[x].k = "TOK" /\ Rule(r)[x] = T}
RulesNest == Placed => /\ Covered("novel_calls_shorter") \subseteq Covered("all_calls_shorter")
                       /\ Covered("all_calls_shorter") \subseteq Covered("all_calls_full")
\* a selection that occurs in the target earns all its weight
OwnTargetIsBest == (Placed /\ n < MaxNodes) =>
  LET own == Strip(R)  v == Rule("all_calls_full") IN
  CallCost(R, L, v, own, Listing(own), 1, 3) =
    CallFound(SumF(LAMBDA x : Weight(L[x].ty[2]), Covered("all_calls_full")), 1, 3)
=============================================================================
