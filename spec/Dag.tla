-------------------------------- MODULE Dag --------------------------------
(* Gated state DAGs (decision diagrams): edges, paths, pruning, rewriting.   *)
(* An edge is <<source, dest, cost, key, value, info>>; key = -1 means that  *)
(* the edge requires no assignment; a cost of INF or more is infinite.       *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

INF == 1000000
Add(a, b) == IF a >= INF \/ b >= INF THEN INF ELSE a + b
MinOf(S) == IF S = {} THEN INF ELSE CHOOSE x \in S : \A y \in S : x <= y

Src(e) == e[1]
Dst(e) == e[2]
Cost(e) == e[3]
Key(e) == e[4]
Val(e) == e[5]
Info(e) == e[6]
Finite(e) == e[3] < INF

EdgeStates(E) == {Src(E[i]) : i \in DOMAIN E} \cup {Dst(E[i]) : i \in DOMAIN E}

---------------------------------------------------------------------------
(* Building: an edge may not enter a state that was already left (nor itself) *)
MayAdd(E, e) == /\ Dst(e) # Src(e)
                /\ \A i \in DOMAIN E : Src(E[i]) # Dst(e)
Topological(E) == \A i \in DOMAIN E : MayAdd(SubSeq(E, 1, i - 1), E[i])

---------------------------------------------------------------------------
(* Reachability, by the definition (not by edge order)                        *)
RECURSIVE Closure(_, _, _)
Closure(E, S, fwd) ==
  LET T == S \cup IF fwd
                  THEN {Dst(E[i]) : i \in {j \in DOMAIN E : Finite(E[j]) /\ Src(E[j]) \in S}}
                  ELSE {Src(E[i]) : i \in {j \in DOMAIN E : Finite(E[j]) /\ Dst(E[j]) \in S}}
  IN IF T = S THEN S ELSE Closure(E, T, fwd)
Acyclic(E) == \A i \in DOMAIN E : Finite(E[i]) =>
                 Src(E[i]) \notin Closure(E, {Dst(E[i])}, TRUE)
Useful(E, init, final) == Closure(E, {init}, TRUE) \cap Closure(E, {final}, FALSE)
Prune(E, init, final) ==
  LET U == Useful(E, init, final)
  IN SelectSeq(E, LAMBDA e : Finite(e) /\ Src(e) \in U /\ Dst(e) \in U)
HasPath(E, init, final) == final \in Closure(E, {init}, TRUE)
FirstAppearance(E) ==
  LET RECURSIVE go(_, _)
      go(i, acc) == IF i > Len(E) THEN acc
        ELSE LET a == IF Contains(acc, Src(E[i])) THEN acc ELSE Append(acc, Src(E[i]))
                 b == IF Contains(a, Dst(E[i])) THEN a ELSE Append(a, Dst(E[i]))
             IN go(i + 1, b)
  IN go(1, <<>>)

---------------------------------------------------------------------------
(* All start-to-end paths, as sequences of edge indices                       *)
Paths(E, init, final) ==
  LET RECURSIVE from(_)
      from(s) == IF s = final THEN {<<>>}
                 ELSE UNION {{<<i>> \o p : p \in from(Dst(E[i]))} :
                              i \in {j \in DOMAIN E : Finite(E[j]) /\ Src(E[j]) = s}}
  IN from(init)
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
PathCost(E, p) == SumSeq([k \in DOMAIN p |-> Cost(E[p[k]])])
Keys(E) == {Key(E[i]) : i \in DOMAIN E} \ {-1}
Vals(E) == {Val(E[i]) : i \in {j \in DOMAIN E : Key(E[j]) # -1}}
(* the decisions of a path: every key of the diagram has a value, keys that   *)
(* the path does not mention have the value `missing`                         *)
PathDec(E, p, ks, missing) ==
  [k \in ks |-> LET I == {j \in DOMAIN p : Key(E[p[j]]) = k}
                IN IF I = {} THEN missing ELSE Val(E[p[MinOf(I)]])]
(* keys along every path strictly increase                                    *)
KeysOrdered(E, init, final) ==
  \A i, j \in DOMAIN E :
     (/\ Key(E[i]) # -1 /\ Key(E[j]) # -1 /\ i # j
      /\ Src(E[j]) \in Closure(E, {Dst(E[i])}, TRUE))
     => Key(E[i]) < Key(E[j])

---------------------------------------------------------------------------
(* Renaming: R is E with its states renamed by a bijection onto 0..n-1        *)
IsRenaming(E, init, final, R, rinit, rfinal) ==
  LET pairs == {<<Src(E[i]), Src(R[i])>> : i \in DOMAIN E}
               \cup {<<Dst(E[i]), Dst(R[i])>> : i \in DOMAIN E}
               \cup {<<init, rinit>>, <<final, rfinal>>}
      n == Cardinality({q[1] : q \in pairs})
  IN /\ \A q, r \in pairs : (q[1] = r[1]) <=> (q[2] = r[2])
     /\ {q[2] : q \in pairs} = 0..(n - 1)
     /\ \A i \in DOMAIN E : SubSeq(E[i], 3, 6) = SubSeq(R[i], 3, 6)
=============================================================================
