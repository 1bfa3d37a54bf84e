------------------------------- MODULE MC_Memo -------------------------------
(* Design model of the cached prefix/suffix tables.  Table rows are abstracted *)
(* to the penalty versions they were computed from: the prefix row of tag t     *)
(* depends on the penalties of variables 1..t, the suffix row of tag t on those *)
(* of t+1..K.  Whatever is queried, only rows with current versions may be read.*)
EXTENDS Integers, Sequences, IOUtils, Json, TLC
K == atoi(IOEnv.K)
L == atoi(IOEnv.MAXLEN)
VARIABLES pen, ptab, stab, pv, sv, hist, readok
vars == <<pen, ptab, stab, pv, sv, hist, readok>>
Tags == 0..K                                \* tag 0: no variable decided yet
Stale == <<"stale">>
Init == /\ pen = [k \in 1..K |-> 0]
        /\ ptab = [t \in Tags |-> Stale] /\ stab = [t \in Tags |-> Stale]
        /\ pv = -1 /\ sv = K + 1 /\ hist = <<>> /\ readok = TRUE
(* refresh rows beyond the valid pointer, from the last valid row on            *)
RECURSIVE FillP(_, _, _)
FillP(tab, t, want) == IF t > want THEN tab
   ELSE FillP([tab EXCEPT ![t] = IF t = 0 THEN <<>> ELSE Append(tab[t - 1], pen[t])], t + 1, want)
RECURSIVE FillS(_, _, _)
FillS(tab, t, want) == IF t < want THEN tab
   ELSE FillS([tab EXCEPT ![t] = IF t = K THEN <<>> ELSE <<pen[t + 1]>> \o tab[t + 1]], t - 1, want)
P(want) == IF want <= pv THEN ptab ELSE FillP(ptab, pv + 1, want)
S(want) == IF want >= sv THEN stab ELSE FillS(stab, sv - 1, want)
MaxI(a, b) == IF a > b THEN a ELSE b
MinI(a, b) == IF a < b THEN a ELSE b
GoodP(tab, t) == tab[t] = SubSeq(pen, 1, t)
GoodS(tab, t) == tab[t] = SubSeq(pen, t + 1, K)
Log(e) == /\ hist' = Append(hist, e)
          /\ IF Len(hist') = L /\ "HIST" \in DOMAIN IOEnv THEN PrintT(<<"HIST", ToJson(hist')>>) ELSE TRUE
Set(k) == /\ pen' = [pen EXCEPT ![k] = @ + 1]
          /\ pv' = MinI(pv, k - 1) /\ sv' = MaxI(sv, k)
          /\ UNCHANGED <<ptab, stab, readok>> /\ Log(<<"set", k - 1>>)
Read(p, s) == /\ ptab' = P(p) /\ pv' = MaxI(pv, p)
              /\ stab' = S(s) /\ sv' = MinI(sv, s)
              /\ readok' = (GoodP(ptab', p) /\ GoodS(stab', s))
Marg(k) == Read(k - 1, k) /\ UNCHANGED pen /\ Log(<<"marg", k - 1>>)
AtEnd == /\ ptab' = P(K) /\ pv' = MaxI(pv, K) /\ readok' = GoodP(ptab', K)
         /\ UNCHANGED <<pen, stab, sv>> /\ Log(<<"min", 0>>)
AtStart == /\ stab' = S(0) /\ sv' = MinI(sv, 0) /\ readok' = GoodS(stab', 0)
           /\ UNCHANGED <<pen, ptab, pv>> /\ Log(<<"min", 1>>)
Middle == LET k == MinI(MaxI(1, sv), K) IN
          Read(k - 1, k) /\ UNCHANGED pen /\ Log(<<"min", 2>>)
All == /\ ptab' = P(K) /\ pv' = MaxI(pv, K) /\ stab' = S(0) /\ sv' = MinI(sv, 0)
       /\ readok' = \A k \in 1..K : GoodP(ptab', k - 1) /\ GoodS(stab', k)
       /\ UNCHANGED pen /\ Log(<<"all", 0>>)
Next == Len(hist) < L /\ (\/ \E k \in 1..K : Set(k) \/ Marg(k)
                          \/ AtEnd \/ AtStart \/ Middle \/ All)
Spec == Init /\ [][Next]_vars
Inv == /\ readok
       /\ \A t \in Tags : t <= pv => GoodP(ptab, t)
       /\ \A t \in Tags : t >= sv => GoodS(stab, t)
=============================================================================
