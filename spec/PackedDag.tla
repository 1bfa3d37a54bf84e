----------------------------- MODULE PackedDag -----------------------------
(* Variable-ordered packed diagrams: what packing must preserve, and what      *)
(* shortest-path queries under penalties must answer.                          *)
EXTENDS Dag
SortedSeq(S) == SetToSortSeq(S, <)
(* edges at positions of a path that stem from original edges                  *)
Origin(PE, p) == LET q == SelectSeq(p, LAMBDA i : Info(PE[i]) >= 0)
                 IN [k \in DOMAIN q |-> Info(PE[q[k]]) + 1]
KeySeq(PE, p) == LET q == SelectSeq(p, LAMBDA i : Key(PE[i]) # -1)
                 IN [k \in DOMAIN q |-> Key(PE[q[k]])]
IndexIn(s, x) == CHOOSE i \in DOMAIN s : s[i] = x

(* PE uses key and value indices into ks and vs                                *)
FaithfulPacking(E, init, final, PE, n, ks, vs, missing) ==
  LET P == Paths(E, init, final)  Q == Paths(PE, 0, n - 1)
      K == Len(ks) IN
  IF {Origin(PE, q) : q \in Q} # P THEN "paths after packing differ"
  ELSE IF Cardinality(Q) # Cardinality(P) THEN "a path was duplicated or merged"
  ELSE IF \E q \in Q : KeySeq(PE, q) # [k \in 1..K |-> k - 1]
       THEN "not every variable decided once, in order"
  ELSE IF \E i \in DOMAIN PE : Info(PE[i]) < 0 /\
          (Cost(PE[i]) # 0 \/ Key(PE[i]) = -1 \/ vs[Val(PE[i]) + 1] # missing)
       THEN "inserted edge is not a free missing-decision edge"
  ELSE IF \E i \in DOMAIN PE : Info(PE[i]) >= 0 /\
          LET e == E[Info(PE[i]) + 1] IN
          \/ Cost(PE[i]) # Cost(e)
          \/ (Key(e) = -1) # (Key(PE[i]) = -1)
          \/ Key(e) # -1 /\ (ks[Key(PE[i]) + 1] # Key(e) \/ vs[Val(PE[i]) + 1] # Val(e))
       THEN "cost or decision of an edge changed"
  ELSE ""

(* documented layout: edges grouped by variable, states grouped by tag         *)
Layout(PE, n, K, eb, sb) ==
  /\ Len(eb) = 2 * K + 2 /\ eb[1] = 0 /\ eb[2 * K + 2] = Len(PE)
  /\ Len(sb) = K + 2 /\ sb[1] = 0 /\ sb[K + 2] = n
  /\ \A i \in 1..(2 * K + 1) : eb[i] <= eb[i + 1]
  /\ \A i \in 1..(K + 1) : sb[i] <= sb[i + 1]
  /\ \A g \in 0..(2 * K) : \A x \in (eb[g + 1] + 1)..eb[g + 2] :
       LET v == g \div 2  assigns == g % 2 = 1  e == PE[x]  d == IF assigns THEN v + 1 ELSE v IN
       /\ Key(e) = IF assigns THEN v ELSE -1
       /\ Src(e) >= sb[v + 1] /\ Src(e) < sb[v + 2]
       /\ Dst(e) >= sb[d + 1] /\ Dst(e) < sb[d + 2]

---------------------------------------------------------------------------
(* Shortest paths.  A path is summarised as [cost, dec] with dec a function    *)
(* from key positions 1..K to value positions 1..V; pen[k][v] is the penalty   *)
Summaries(E, init, final, ks, vs, missing) ==
  LET K == {ks[i] : i \in DOMAIN ks} IN
  {LET d == PathDec(E, p, K, missing) IN
     [cost |-> PathCost(E, p),
      dec |-> [k \in DOMAIN ks |-> IndexIn(vs, d[ks[k]])]] : p \in Paths(E, init, final)}
RECURSIVE PenSum(_, _, _)
PenSum(pen, dec, k) == IF k > Len(dec) THEN 0 ELSE Add(pen[k][dec[k]], PenSum(pen, dec, k + 1))
Penalised(s, pen) == Add(s.cost, PenSum(pen, s.dec, 1))
BestCost(S, pen) == MinOf({Penalised(s, pen) : s \in S})
Marginal(S, pen, k, nv) == [v \in 1..nv |-> BestCost({s \in S : s.dec[k] = v}, pen)]
=============================================================================
