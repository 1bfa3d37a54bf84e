---------------------------- MODULE MC_Baselines ----------------------------
(* The rules themselves, on small suggestions: grow a suggestion, score its     *)
(* text piece by piece, decide the markers one by one.                          *)
EXTENDS Baselines, Costs, Edit, IOUtils
MaxNodes == atoi(IOEnv.MAXNODES)
Ls == { <<"TOK", <<97>>, <<"=", "t">>, <<>>>>, <<"TOK", <<98, 98>>, <<"=", "t">>, <<>>>>,
        <<"TOK", <<>>, <<"=", "t">>, <<>>>>,
        <<"DEC", <<10>>, NoTy, <<>>>>, <<"GRP", <<>>, <<"=", "g">>, <<>>>> }
Settings == {<<4, 3, 2, 1>>, <<4, 2, 0, 5>>, <<2, 0, 1, 1>>, <<4, 4, 0, 0>>, <<1, 0, 1, 2>>}
VARIABLES t, kind, sc, v, w, set
vars == <<t, kind, sc, v, w, set>>
RECURSIVE Appends(_, _)
Appends(s, x) == {Append(s, x)} \cup
   IF s # <<>> /\ K(Last(s)) = "GRP"
   THEN {Append(Front(s), WithCh(Last(s), c)) : c \in Appends(Ch(Last(s)), x)} ELSE {}
Marked == CASE kind = "unc" -> RegionOptions(t, TRUE, "pseudo") [] kind = "pre" -> EarlyExits(t, TRUE, TRUE) [] OTHER -> t
L == Listing(Marked)
Init == t = <<>> /\ kind = "none" /\ sc = <<>> /\ v = <<>> /\ w = WStart /\ set = <<1, 0, 0, 0>>
Grow == kind = "none" /\ Size(t) < MaxNodes /\ \E x \in Ls : t' \in Appends(t, x)
        /\ UNCHANGED <<kind, sc, v, w, set>>
Choose == kind = "none" /\ t # <<>> /\ kind' \in {"unc", "pre"} /\ set' \in Settings
          /\ UNCHANGED <<t, sc, v, w>>
Score == kind # "none" /\ Len(sc) < Len(L) /\ v = <<>>
         /\ \E k \in (IF L[Len(sc) + 1].k \in {"TOK"} THEN {0, 1, 3} ELSE {0}) : sc' = Append(sc, k)
         /\ UNCHANGED <<t, kind, v, w, set>>
Decide == kind # "none" /\ Len(sc) = Len(L) /\ LET x == Len(v) + 1 IN
  /\ x <= Len(L)
  /\ \E d \in MayDecide(L, w, x) : v' = Append(v, d) /\ w' = After(L, w, x, d)
  /\ UNCHANGED <<t, kind, sc, set>>
Next == Grow \/ Choose \/ Score \/ Decide
Spec == Init /\ [][Next]_vars
Scored == kind # "none" /\ Len(sc) = Len(L)
Pr == Derived(set[2], set[3], set[4], set[1])
AtStart == Scored /\ v = <<>>
Decided == Scored /\ Len(v) = Len(L) /\ MayFinish(w)
Wanted == {WantToken(L, sc, 0), WantCumulative(L, sc, 1), WantFraction(L, 1, 2), WantDepth(L, 1, 1)}
Ms == {0, 1, 2, 3, 6}
\* no annotation covers more, or as much at less cost
CoverIsOptimal == (Decided /\ kind = "unc") => \A W \in Wanted : CheapestCover(L, W, Pr) <= CostNumber(L, v, W, Pr)
CoverIsAttained == (AtStart /\ kind = "unc") => \A W \in Wanted :
  \E d \in WellFormedSet(L) : CheapestCover(L, W, Pr) = CostNumber(L, d, W, Pr)
\* the cost is that of the edits of a user who wants exactly the suggestion
CostIsOwnEdit == (Decided /\ kind = "unc") => CostNumber(L, v, {}, Pr) = EditCost(L, v, Listing(t), Pr)
\* every token can be covered when groups and tokens may be put in regions
Thresholds == AtStart => \A m, n \in Ms : m <= n =>
  WantToken(L, sc, n) \subseteq WantToken(L, sc, m) /\ WantCumulative(L, sc, n) \subseteq WantCumulative(L, sc, m)
Fractions == AtStart => WantFraction(L, 0, 1) = Full(L) /\ WantFraction(L, 1, 1) = {}
\* the text kept up to exit e (0: all of it)
Kept(e) == {x \in Full(L) : e = 0 \/ x < e}
Stops == (AtStart /\ kind = "pre") => \A m \in Ms :
  /\ LET e == StopToken(L, sc, m) IN
       /\ (\A x \in Kept(e) : sc[x] <= m) \/ {x \in Exits(L) : x < MinOr0({y \in Full(L) : sc[y] > m})} = {}
       /\ e # 0 => L[e].k = "EE"
  /\ LET a == StopPrefix(L, sc, m)  b == StopToken(L, sc, m) IN
       b # 0 => a # 0 /\ a <= b        \* a prefix is never likelier than its least likely token
  /\ StopPrefix(L, sc, m) # 0 => \A n \in Ms : n <= m => StopPrefix(L, sc, n) \in 1..StopPrefix(L, sc, m)
ExitsAreDecisions == (AtStart /\ kind = "pre") => \A e \in {0} \cup Exits(L) :
  WellFormed(L, [x \in DOMAIN L |-> IF L[x].k = "EE" THEN ExitVector(L, e)[x]
                  ELSE IF L[x].k = "DEC" \/ (e # 0 /\ x > e) THEN NA ELSE F])
=============================================================================
