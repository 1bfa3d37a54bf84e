----------------------------- MODULE MC_Pipeline -----------------------------
(* What the optimiser is after, on small suggestions: grow a suggestion and a   *)
(* possible intent, decide the markers one by one, and compare.                 *)
(*  - when the samples agree with the suggestion, showing it plainly is optimal *)
(*  - nothing beats a plain suggestion that is entirely right                   *)
(*  - a threshold of 0 never calls for a region; sensitivity 1 neither          *)
EXTENDS Edit, Costs, IOUtils
MaxNodes == atoi(IOEnv.MAXNODES)
Ls == { <<"TOK", <<97>>, <<"=", "t">>, <<>>>>, <<"TOK", <<98, 98>>, <<"=", "t">>, <<>>>>,
        <<"DEC", <<32>>, NoTy, <<>>>>, <<"GRP", <<>>, <<"=", "g">>, <<>>>> }
Settings == {<<4, P, S, C>> : P \in {0, 2, 3}, S \in {0, 2, 4}, C \in {0, 1, 5}}
VARIABLES t, u, kind, v, w, set
vars == <<t, u, kind, v, w, set>>
RECURSIVE Appends(_, _)
Appends(s, x) == {Append(s, x)} \cup
   IF s # <<>> /\ K(Last(s)) = "GRP"
   THEN {Append(Front(s), WithCh(Last(s), c)) : c \in Appends(Ch(Last(s)), x)} ELSE {}
Marked(kd, s) ==
  LET a == IF kd \in {"unc", "both"} THEN RegionOptions(s, TRUE, "pseudo") ELSE s
  IN IF kd \in {"pre", "both"} THEN EarlyExits(a, TRUE, TRUE) ELSE a
Init == t = <<>> /\ u = <<>> /\ kind = "none" /\ v = <<>> /\ w = WStart /\ set = <<4, 0, 0, 0>>
Grow == kind = "none" /\ u = <<>> /\ Size(t) < MaxNodes /\ \E x \in Ls : t' \in Appends(t, x)
        /\ UNCHANGED <<u, kind, v, w, set>>
GrowIntent == kind = "none" /\ t # <<>> /\ Size(u) < MaxNodes - 1 /\ \E x \in Ls : u' \in Appends(u, x)
              /\ UNCHANGED <<t, kind, v, w, set>>
SettingsFor(s) == IF Size(s) < MaxNodes - 1 THEN Settings ELSE {<<4, 3, 2, 1>>, <<4, 2, 0, 5>>, <<4, 0, 2, 1>>}
Choose == kind = "none" /\ t # <<>> /\ kind' \in (IF Size(t) < MaxNodes THEN {"unc", "pre", "both"} ELSE {"unc", "pre"}) /\ set' \in SettingsFor(t)
          /\ UNCHANGED <<t, u, v, w>>
Chosen == kind # "none"
L == Listing(Marked(kind, t))
Decide == Chosen /\ LET x == Len(v) + 1 IN
  /\ x <= Len(L)
  /\ \E d \in MayDecide(L, w, x) : v' = Append(v, d) /\ w' = After(L, w, x, d)
  /\ UNCHANGED <<t, u, kind, set>>
Next == Grow \/ GrowIntent \/ Choose \/ Decide
Spec == Init /\ [][Next]_vars
Decided == Chosen /\ Len(v) = Len(L) /\ MayFinish(w)
Pr == Derived(set[2], set[3], set[4], set[1])
Plain == [x \in DOMAIN L |-> IF L[x].k \in {"DEC", "RE"} THEN NA ELSE F]
PlainIsWellFormed == Chosen => WellFormed(L, Plain)
EveryDecisionHasACost == Decided => EditCost(L, v, Listing(u), Pr) < INF
AgreementIsOptimal == Decided =>
  EditCost(L, Plain, Listing(t), Pr) <= EditCost(L, v, Listing(t), Pr)
\* no decisions do better than a plain suggestion that is entirely right
Perfect(M) == -(SumF(LAMBDA x : Len(L[x].txt) * Pr.hm, {x \in DOMAIN L : L[x].k = "TOK"}))
NeverBetterThanPerfect == Decided => EditCost(L, v, Listing(u), Pr) >= Perfect(u)
NoRegionAtThresholdZero == (Decided /\ set[2] = 0 /\ ~Exited(L, v)) =>
  EditCost(L, Plain, Listing(u), Pr) <= EditCost(L, v, Listing(u), Pr)
=============================================================================
