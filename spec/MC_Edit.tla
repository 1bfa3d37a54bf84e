------------------------------- MODULE MC_Edit -------------------------------
(* For the cases in CASES: no run of the editing machine beats EditCost, some  *)
(* run attains it, and there is a run exactly if the decisions are consistent. *)
EXTENDS EditMachine, Json, IOUtils, TLCExt
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES ci, s
PI == Trav(Cases[ci].p, 0, FALSE)
TI == Trav(Cases[ci].t, 0, FALSE)
L == Listing(Cases[ci].p)
M == Listing(Cases[ci].t)
vec == Cases[ci].v
pr == Cases[ci].pr
Init == ci \in 1..Len(Cases) /\ s = Start
Next == \E e \in Steps(L, vec, PI, M, TI, pr, s) : s' = e[2] /\ UNCHANGED ci
Spec == Init /\ [][Next]_<<ci, s>>
NeverCheaper == s.done => s.cost >= EditCost(L, vec, M, pr)
WorkedOutOnce == s = Start => AheadIsRight(L, vec, pr)
Record == IF s.done
          THEN TLCSet(1, [TLCGet(1) EXCEPT ![ci] = MinI(@, s.cost)]) ELSE TRUE
ASSUME TLCSet(1, [k \in 1..Len(Cases) |-> INF])
Attained == \A k \in 1..Len(Cases) :
  TLCGet(1)[k] = LET c == Cases[k] IN EditCost(Listing(c.p), c.v, Listing(c.t), c.pr)
Bad == {k \in 1..Len(Cases) :
  TLCGet(1)[k] # LET c == Cases[k] IN EditCost(Listing(c.p), c.v, Listing(c.t), c.pr)}
Post == IF Attained THEN TRUE ELSE PrintT(<<"not attained", Bad>>) /\ FALSE
=============================================================================
