------------------------------ MODULE Baselines ------------------------------
(***************************************************************************)
(* Rules that annotate a suggestion from its token scores, lengths or nesting  *)
(* instead of from samples.  A score is a whole number k of quarter nats: the  *)
(* probability is exp(-k/4).  A threshold m stands for exp(-(m + 1/2)/4): a     *)
(* token is unlikely exactly when its score exceeds m.                         *)
(***************************************************************************)
EXTENDS Regions, Align, TLC
RECURSIVE ScoresFrom(_, _, _)
ScoresFrom(L, x, s) ==
  IF x > Len(L) THEN <<>>
  ELSE IF L[x].k \in {"TOK", "DEC"}
       THEN LET r == Read(s, Len(L[x].txt)) IN <<r[2]>> \o ScoresFrom(L, x + 1, r[3])
       ELSE <<0>> \o ScoresFrom(L, x + 1, s)
\* the score of every text node (in preorder)
Scores(L, model) == ScoresFrom(L, 1, model)
Toks(L) == {x \in DOMAIN L : L[x].k = "TOK"}
Full(L) == {x \in Toks(L) : L[x].txt # <<>>}
RECURSIVE Sum(_, _)
Sum(f(_), S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f(x) + Sum(f, S \ {x})
UpTo(S, x) == {y \in S : y <= x}
---------------------------------------------------------------------------
(* Which tokens a rule wants inside a region.                                 *)
WantToken(L, sc, m) == {x \in Full(L) : sc[x] > m}
WantCumulative(L, sc, m) == {x \in Full(L) : Sum(LAMBDA y : sc[y], UpTo(Toks(L), x)) > m}
\* the same, empty tokens included
WantTokenAll(L, sc, m) == {x \in Toks(L) : sc[x] > m}
WantCumulativeAll(L, sc, m) == {x \in Toks(L) : Sum(LAMBDA y : sc[y], UpTo(Toks(L), x)) > m}
Offset(L, x) == Sum(LAMBDA y : Len(L[y].txt), UpTo({y \in DOMAIN L : L[y].k \in {"TOK", "DEC"}}, x))
WantOffset(L, n) == {x \in Full(L) : Offset(L, x) > n}
\* beyond the fraction a/b of the suggestion
WantFraction(L, a, b) == {x \in Full(L) : b * Offset(L, x) > a * Offset(L, Len(L))}
WantDepth(L, anc, child) ==
  IF Toks(L) = {} THEN {}
  ELSE LET f == CHOOSE x \in Toks(L) : \A y \in Toks(L) : x <= y
       IN {x \in Toks(L) \ {f} : \/ L[x].level <= L[f].level - anc
                                 \/ L[x].level >= L[f].level + child}
\* The cheapest annotation that covers as much of W as any can, when the suggestion
\* is entirely right: <<tokens of W left out, cost>> as one number.
Miss == 1048576
CostNumber(L, v, W, pr) ==
  Miss * Cardinality({x \in W : v[x] # T})
  + pr.reg * Cardinality(RegionsOf(L, v))
  - Sum(LAMBDA x : Len(L[x].txt) * (IF v[x] = T THEN pr.lm ELSE pr.hm), Toks(L))
CheapestCover(L, W, pr) ==
  LET n == Len(L)
      inf == 2000000000
      starts == {0} \cup {x \in DOMAIN L : L[x].k = "RS"}
      own(x) == L[x].parent + 1
      lim == TLCEval([o \in starts |-> IF o = 0 THEN n + 1 ELSE LastBelow(L, own(o))])
      min2(a, b) == IF a < b THEN a ELSE b
      row(x, nxt) == TLCEval([o \in starts |->
        IF o >= x \/ (o # 0 /\ x > lim[o]) THEN inf
        ELSE LET stay == nxt[o] IN
             CASE L[x].k = "RS" /\ o = 0 -> min2(stay, IF nxt[x] = inf THEN inf ELSE nxt[x] + pr.reg)
               [] L[x].k = "RE" /\ o # 0 /\ L[x].parent = L[o].parent -> min2(stay, nxt[0])
               [] L[x].k = "TOK" -> IF stay = inf THEN inf
                    ELSE stay - Len(L[x].txt) * (IF o # 0 THEN pr.lm ELSE pr.hm)
                         + (IF x \in W /\ o = 0 THEN Miss ELSE 0)
               [] OTHER -> stay])
      RECURSIVE down(_, _)
      down(x, nxt) == IF x = 0 THEN nxt ELSE down(x - 1, row(x, nxt))
  IN down(n, TLCEval([o \in starts |-> IF o = 0 THEN 0 ELSE inf]))[0]
---------------------------------------------------------------------------
(* Where a rule stops the suggestion: the position of an exit, or 0.          *)
Exits(L) == {x \in DOMAIN L : L[x].k = "EE"}
MinOr0(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : x <= y
MaxOr0(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : x >= y
\* just before the first unlikely token if there is an exit before it, else at the next exit
ExitBefore(L, bad) ==
  IF bad = {} THEN 0
  ELSE LET f == MinOr0(bad)
           b == MaxOr0({x \in Exits(L) : x < f}) IN
       IF b # 0 THEN b ELSE MinOr0({x \in Exits(L) : x > f})
ExitAfter(L, x) == IF x = 0 THEN 0 ELSE MinOr0({y \in Exits(L) : y > x})
StopToken(L, sc, m) == ExitBefore(L, {x \in Full(L) : sc[x] > m})
StopPrefix(L, sc, m) == ExitBefore(L, {x \in Full(L) : Sum(LAMBDA y : sc[y], UpTo(Full(L), x)) > m})
\* exp(-k/4) < 0.8 / (1 + exp(-n/10)) for the n-th token (from 0)
Unlikely(k, n) == k >= 4 \/ (k = 3 /\ n >= 4) \/ (k = 2 /\ n >= 12) \/ (k = 1 /\ n >= 37)
StopIntellicode(L, sc) ==
  ExitBefore(L, {x \in Full(L) : Unlikely(sc[x], Cardinality(UpTo(Full(L), x)) - 1)})
\* best average score over the (nonempty) tokens shown; the first exit in case of ties
StopAverage(L, sc) ==
  LET cand == {x \in Exits(L) : UpTo(Full(L), x) # {}}
      tot == TLCEval([x \in cand |-> Sum(LAMBDA y : sc[y], UpTo(Full(L), x))])
      num == TLCEval([x \in cand |-> Cardinality(UpTo(Full(L), x))])
  IN MinOr0({x \in cand : \A y \in cand : tot[x] * num[y] <= tot[y] * num[x]})
StopChars(L, max) ==
  ExitAfter(L, MinOr0({x \in Toks(L) : Sum(LAMBDA y : Len(L[y].txt), UpTo(Toks(L), x)) >= max}))
Lines(L) == {x \in DOMAIN L : L[x].k = "DEC" /\ \E j \in DOMAIN L[x].txt : L[x].txt[j] = 10}
StopLines(L, max) == ExitAfter(L, MinOr0({x \in Lines(L) : Cardinality(UpTo(Lines(L), x)) >= max}))
\* the exit decisions that stop at e
ExitVector(L, e) == [x \in DOMAIN L |->
  IF L[x].k # "EE" THEN NA ELSE IF x = e THEN T ELSE IF e # 0 /\ x > e THEN NA ELSE F]
=============================================================================
