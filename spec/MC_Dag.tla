------------------------------- MODULE MC_Dag -------------------------------
(* Design model: the topological-order builder and the bounded state table    *)
(* (direct-mapped with eviction to a fallback dictionary) used for renaming.  *)
EXTENDS Dag, IOUtils, Json
N == atoi(IOEnv.NSTATES)
L == atoi(IOEnv.MAXLEN)
TS == atoi(IOEnv.TSIZE)
VARIABLES E, hist, table, byidx, fallback, ids
vars == <<E, hist, table, byidx, fallback, ids>>
St == 0..(N - 1)
Init == /\ E = <<>> /\ hist = <<>>
        /\ table = [h \in 0..(TS - 1) |-> -1] /\ byidx = <<>>
        /\ fallback = <<>> /\ ids = <<>>
Lookup(s) == LET x == table[s % TS] IN
             IF x = -1 THEN -1
             ELSE IF byidx[x + 1] = s THEN x
             ELSE IF s \in DOMAIN fallback THEN fallback[s] ELSE -1
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Create(s) ==
  LET x == table[s % TS] IN
  /\ byidx' = Append(byidx, s)
  /\ table' = [table EXCEPT ![s % TS] = Len(byidx)]
  /\ fallback' = IF x = -1 THEN fallback ELSE Put(fallback, byidx[x + 1], x)
  /\ ids' = Put(ids, s, Len(byidx))
Attempt(s, d) ==
  LET e == <<s, d, 0, -1, -1, Len(hist)>> ok == MayAdd(E, e) IN
  /\ Len(hist) < L
  /\ hist' = Append(hist, <<s, d, IF ok THEN 1 ELSE 0>>)
  /\ E' = IF ok THEN Append(E, e) ELSE E
  /\ IF ok /\ Lookup(d) = -1 THEN Create(d) ELSE UNCHANGED <<table, byidx, fallback, ids>>
  /\ IF Len(hist') = L /\ "HIST" \in DOMAIN IOEnv THEN PrintT(<<"HIST", ToJson(hist')>>) ELSE TRUE
Next == \E s, d \in St : Attempt(s, d)
Spec == Init /\ [][Next]_vars
Invariants ==
  /\ Topological(E) /\ Acyclic(E)
  /\ Len(E) = Cardinality({i \in DOMAIN hist : hist[i][3] = 1})
  (* table: every created state keeps the id it was given; unknown stay unknown *)
  /\ \A s \in St : Lookup(s) = IF s \in DOMAIN ids THEN ids[s] ELSE -1
  /\ \A s, t \in DOMAIN ids : s # t => ids[s] # ids[t]
  (* pruning keeps exactly the paths *)
  /\ \A i, f \in St :
       LET P == Prune(E, i, f) IN
       /\ {[k \in DOMAIN p |-> E[p[k]]] : p \in Paths(E, i, f)}
            = {[k \in DOMAIN p |-> P[p[k]]] : p \in Paths(P, i, f)}
       /\ (Paths(E, i, f) # {}) = HasPath(E, i, f)
       /\ Prune(P, i, f) = P
=============================================================================
