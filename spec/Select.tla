------------------------------- MODULE Select -------------------------------
(***************************************************************************)
(* Value of selected parts: each selected part of the prototype (a region)   *)
(* is either found in the target as it is, after the parts found before it,  *)
(* or it counts as wrong.  pr = [m, d, mu, du, e]: utility of a found token  *)
(* and cost of a wrong one, per (character + e); mu, du for type "u".        *)
(***************************************************************************)
EXTENDS Edit
TokUtil(n, pr) == (Len(n.txt) + pr.e) * (IF n.ty = <<"=", "u">> THEN pr.mu ELSE pr.m)
TokCost(n, pr) == (Len(n.txt) + pr.e) * (IF n.ty = <<"=", "u">> THEN pr.du ELSE pr.d)
\* items that can be found or not: tokens, and the begin and end of groups
SameItem(L, M, a, b) ==
  LET n == L[a[2] + 1]  q == M[b[2] + 1] IN
  /\ a[1] = b[1] /\ n.k = q.k /\ n.ty = q.ty
  /\ n.k = "TOK" => n.txt = q.txt
ItemsOf(t) == LET L == Listing(t) IN
  SelectSeq(Trav(t, 0, TRUE), LAMBDA a : L[a[2] + 1].k \in {"TOK", "GRP"})
\* position of an in-order item relative to node positions: item a lies between
\* the region boundaries r[1] and r[2] in reading order
RegionItems(t, L, r) ==
  LET V == Trav(t, 0, TRUE)
      ix(x) == CHOOSE j \in DOMAIN V : V[j][2] = x - 1   \* boundaries are leaves
      sub == SubSeq(V, ix(r[1]) + 1, ix(r[2]) - 1)
  IN SelectSeq(sub, LAMBDA a : L[a[2] + 1].k \in {"TOK", "GRP"})
RegionSeq(L, v) == SetToSortSeq(RegionsOf(L, v), LAMBDA a, b : a[1] < b[1])
Found(L, M, items, TI, j) ==
  /\ j + Len(items) - 1 <= Len(TI)
  /\ \A k \in DOMAIN items : SameItem(L, M, items[k], TI[j + k - 1])
TokensIn(L, items) == {k \in DOMAIN items : L[items[k][2] + 1].k = "TOK"}
\* Util(n), Wrong(n): what a found token n earns, what a wrong one costs
SelectCostBy(p, L, v, t, M, Util(_), Wrong(_)) ==
  IF ~Consistent(L, v) \/ \E x \in DOMAIN L : L[x].k = "EE" THEN INF
  ELSE LET TI == ItemsOf(t)
           RR == RegionSeq(L, v)
           RECURSIVE go(_, _)
           go(i, j) ==      \* regions from i on, target items from j on
             IF i > Len(RR) THEN 0
             ELSE LET it == RegionItems(p, L, RR[i])
                      wrong == SumF(LAMBDA k : Wrong(L[it[k][2] + 1]), TokensIn(L, it))
                      right == SumF(LAMBDA k : Util(L[it[k][2] + 1]), TokensIn(L, it))
                  IN MinSet({wrong + go(i + 1, j)} \cup
                        {go(i + 1, b + Len(it)) - right :
                           b \in {c \in j..Len(TI) : Found(L, M, it, TI, c)}})
       IN go(1, 1)
SelectCost(p, L, v, t, M, pr) ==
  SelectCostBy(p, L, v, t, M, LAMBDA n : TokUtil(n, pr), LAMBDA n : TokCost(n, pr))
---------------------------------------------------------------------------
(* Step by step: s = [p, t, mode, cost, done], mode "skip" | "seek" |          *)
(* "found" | "wrong"; events <<category, prototype node, target node>>.        *)
SStart == [p |-> 1, t |-> 1, mode |-> "skip", cost |-> 0, done |-> FALSE]
SSteps(L, v, PI, M, TI, pr, s) ==
  LET ip == s.p <= Len(PI)   it == s.t <= Len(TI)
      pc == IF ip THEN PI[s.p][1] ELSE "END"
      x == IF ip THEN PI[s.p][2] + 1 ELSE 0
      y == IF it THEN TI[s.t][2] + 1 ELSE 0
      pk == IF ip THEN L[x].k ELSE "END"
      enters == pk = "TOK" \/ pc = "BEFORE_GROUP"   \* items that carry a decision
      fp(q) == [q EXCEPT !.p = @ + 1]
      ft(q) == [q EXCEPT !.t = @ + 1]
      md(q, m) == [q EXCEPT !.mode = m]
      pay(q, c) == [q EXCEPT !.cost = @ + c]
  IN IF s.done THEN {} ELSE
     (IF s.mode = "skip" /\ ((pk \in {"TOK", "GRP"} /\ (enters => v[x] = F))
                             \/ (pk = "RE" /\ v[x] = NA) \/ (pk = "RS" /\ v[x] = F))
      THEN {<< <<"SKIP_UNSELECTED_IN_PROTOTYPE", x - 1, -1, 0>>, fp(s)>>} ELSE {})
     \cup (IF s.mode = "skip" /\ pk = "RS" /\ v[x] = T
           THEN {<< <<>>, md(fp(s), m)>> : m \in {"seek", "wrong"}} ELSE {})
     \cup (IF s.mode = "seek" /\ it
           THEN {<< <<"SKIP_IN_TARGET", -1, y - 1, 0>>, ft(s)>>, << <<>>, md(s, "found")>>} ELSE {})
     \cup (IF s.mode = "found" /\ it /\ pk \in {"TOK", "GRP"} /\ (enters => v[x] = T)
           THEN IF SameItem(L, M, PI[s.p], TI[s.t])
                THEN LET c == IF pk = "TOK" THEN -TokUtil(L[x], pr) ELSE 0 IN
                     {<< <<"SELECT_MATCHED", x - 1, y - 1, c>>, pay(ft(fp(s)), c)>>}
                ELSE {} ELSE {})
     \cup (IF s.mode = "found" /\ ((pk = "RS" /\ v[x] = NA) \/ (pk = "RE" /\ v[x] = F))
           THEN {<< <<"SELECT_MATCHED", x - 1, -1, 0>>, fp(s)>>} ELSE {})
     \cup (IF s.mode = "wrong" /\ ((pk \in {"TOK", "GRP"} /\ (enters => v[x] = T))
                                   \/ (pk = "RS" /\ v[x] = NA) \/ (pk = "RE" /\ v[x] = F))
           THEN LET c == IF pk = "TOK" THEN TokCost(L[x], pr) ELSE 0 IN
                {<< <<"SELECT_UNMATCHED", x - 1, -1, c>>, pay(fp(s), c)>>} ELSE {})
     \cup (IF s.mode \in {"found", "wrong"} /\ pk = "RE" /\ v[x] = T
           THEN {<< <<>>, md(fp(s), "skip")>>} ELSE {})
     \cup (IF s.mode = "skip" /\ ~ip THEN {<< <<>>, [s EXCEPT !.done = TRUE]>>} ELSE {})
=============================================================================
