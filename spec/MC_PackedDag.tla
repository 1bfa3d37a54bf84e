---------------------------- MODULE MC_PackedDag ----------------------------
(* Design model of the packing construction: tag every state with the last     *)
(* variable decided, insert missing-decision edges, and check that the result  *)
(* satisfies FaithfulPacking on every small ordered diagram.                   *)
EXTENDS PackedDag, IOUtils
N == atoi(IOEnv.NSTATES)
L == atoi(IOEnv.MAXLEN)
KS == 0..1
VARIABLE E
MISS == 9
Cand == {<<s, d, c, k, IF k = -1 THEN -1 ELSE v, 0>> :
           s \in 0..(N - 2), d \in 1..(N - 1), c \in {1}, k \in KS \cup {-1}, v \in 0..0}
Init == E = <<>>
Next == /\ Len(E) < L
        /\ \E e \in Cand : /\ Src(e) < Dst(e)
                           /\ IF E = <<>> THEN TRUE ELSE Src(E[Len(E)]) <= Src(e)
                           /\ E' = Append(E, e)
Spec == Init /\ [][Next]_E

(* construction: packed states are <<state, tag>>                              *)
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
Pack(D, ks) ==
  LET idx(k) == IndexIn(ks, k)                       \* 1..K
      RECURSIVE poss(_)
      poss(s) == IF s = 0 THEN 0
                 ELSE MaxOf({IF Key(D[i]) # -1 THEN idx(Key(D[i])) ELSE poss(Src(D[i])) :
                              i \in {j \in DOMAIN D : Dst(D[j]) = s}})
      out(e) == IF Key(e) # -1 THEN idx(Key(e)) ELSE poss(Src(e))
      guar(s) == IF s = 0 THEN 0 ELSE MinOf({out(D[i]) : i \in {j \in DOMAIN D : Dst(D[j]) = s}})
      last(s) == LET I == {idx(Key(D[i])) : i \in {j \in DOMAIN D : Src(D[j]) = s /\ Key(D[j]) # -1}}
                 IN IF I = {} THEN poss(s) ELSE MaxOf(I) - 1
      states == EdgeStates(D)
      ins == {<<<<s, t>>, <<s, t + 1>>, 0, t, MISS, -1>> : s \in states, t \in 0..(Len(ks) - 1)}
      real == {e \in ins : e[1][2] >= guar(e[1][1]) /\ e[1][2] < last(e[1][1])}
      own == {LET e == D[i] IN
              IF Key(e) = -1
              THEN <<<<Src(e), poss(Src(e))>>, <<Dst(e), poss(Src(e))>>, Cost(e), -1, -1, i - 1>>
              ELSE <<<<Src(e), idx(Key(e)) - 1>>, <<Dst(e), idx(Key(e))>>, Cost(e), idx(Key(e)) - 1, Val(e), i - 1>>
              : i \in DOMAIN D}
  IN SetToSeq(real \cup own)
TPaths(PE, a, b) ==
  LET RECURSIVE from(_)
      from(s) == IF s = b THEN {<<>>}
                 ELSE UNION {{<<i>> \o p : p \in from(PE[i][2])} :
                              i \in {j \in DOMAIN PE : PE[j][1] = s}}
  IN from(a)
Inv == LET D == Prune(E, 0, N - 1) IN
       (D # <<>> /\ KeysOrdered(D, 0, N - 1)) =>
       LET ks == SortedSeq(Keys(D))  PE == Pack(D, ks)
           Q == TPaths(PE, <<0, 0>>, <<N - 1, Len(ks)>>) IN
       /\ {Origin(PE, q) : q \in Q} = Paths(D, 0, N - 1)
       /\ Cardinality(Q) = Cardinality(Paths(D, 0, N - 1))
       /\ \A q \in Q : KeySeq(PE, q) = [k \in 1..Len(ks) |-> k - 1]
=============================================================================
