------------------------------ MODULE MC_Select ------------------------------
(* No run of the selection machine beats SelectCost and some run attains it.   *)
EXTENDS Select, Json, IOUtils, TLCExt
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES ci, s
Lp(k) == Listing(Cases[k].p)
Lt(k) == Listing(Cases[k].t)
Opt(k) == SelectCost(Cases[k].p, Lp(k), Cases[k].v, Cases[k].t, Lt(k), Cases[k].pr)
Init == ci \in 1..Len(Cases) /\ s = SStart
Next == \E e \in SSteps(Lp(ci), Cases[ci].v, Trav(Cases[ci].p, 0, TRUE), Lt(ci),
                        ItemsOf(Cases[ci].t), Cases[ci].pr, s) : s' = e[2] /\ UNCHANGED ci
Spec == Init /\ [][Next]_<<ci, s>>
NeverCheaper == s.done => s.cost >= Opt(ci)
Record == IF s.done THEN TLCSet(1, [TLCGet(1) EXCEPT ![ci] = MinI(@, s.cost)]) ELSE TRUE
ASSUME TLCSet(1, [k \in 1..Len(Cases) |-> INF])
Bad == {k \in 1..Len(Cases) : TLCGet(1)[k] # Opt(k)}
Post == IF Bad = {} THEN TRUE ELSE PrintT(<<"not attained", Bad>>) /\ FALSE
=============================================================================
