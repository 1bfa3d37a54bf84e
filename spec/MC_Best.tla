------------------------------- MODULE MC_Best -------------------------------
(* Design model: walking along the cheapest cost-to-go under infinite          *)
(* penalties for other values is an optimal way to obey required decisions.     *)
EXTENDS PackedDag, IOUtils
N == atoi(IOEnv.NSTATES)
L == atoi(IOEnv.MAXLEN)
VARIABLES E, req, at, walked, phase
vars == <<E, req, at, walked, phase>>
Cand == {<<s, d, c, k, IF k = -1 THEN -1 ELSE v, 0>> :
           s \in 0..(N - 2), d \in 1..(N - 1), c \in {0, 2}, k \in {-1, 0}, v \in 0..1}
Init == E = <<>> /\ req = -1 /\ at = 0 /\ walked = <<>> /\ phase = "build"
AddEdge == /\ phase = "build" /\ Len(E) < L
           /\ \E e \in Cand : /\ Src(e) < Dst(e)
                              /\ IF E = <<>> THEN TRUE ELSE Src(E[Len(E)]) <= Src(e)
                              /\ E' = Append(E, e)
           /\ UNCHANGED <<req, at, walked, phase>>
Ok(e) == Key(e) = -1 \/ Val(e) = req          \* penalty 0, otherwise infinite
Allowed == SelectSeq(E, Ok)
ToGo(s) == MinOf({PathCost(Allowed, p) : p \in Paths(Allowed, s, N - 1)})
Start == /\ phase = "build" /\ KeysOrdered(E, 0, N - 1)
         /\ \E r \in 0..1 : req' = r /\ phase' = "walk"
         /\ UNCHANGED <<E, at, walked>>
Walk == /\ phase = "walk" /\ at # N - 1 /\ ToGo(at) < INF
        /\ \E i \in DOMAIN E : /\ Ok(E[i]) /\ Src(E[i]) = at
                               /\ Add(Cost(E[i]), ToGo(Dst(E[i]))) = ToGo(at)
                               /\ at' = Dst(E[i]) /\ walked' = Append(walked, i)
        /\ UNCHANGED <<E, req, phase>>
Next == AddEdge \/ Start \/ Walk
Spec == Init /\ [][Next]_vars
Inv == (phase = "walk" /\ at = N - 1) =>
       /\ walked \in Paths(E, 0, N - 1)
       /\ \A k \in DOMAIN walked : Ok(E[walked[k]])
       /\ PathCost(E, walked) = MinOf({PathCost(E, p) : p \in
             {r \in Paths(E, 0, N - 1) : \A k \in DOMAIN r : Ok(E[r[k]])}})
=============================================================================
