----------------------------- MODULE Trace_Trees -----------------------------
(* Validates recorded histories of tree transforms, one transform per step.  *)
EXTENDS Trees, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES ci, l, cur, said
vars == <<ci, l, cur, said>>
In == Cases[ci].in
Out == Cases[ci].out

Apply(op, t) ==
  CASE op[1] = "flatten" -> Flatten(t)
    [] op[1] = "strip" -> Strip(t)
    [] op[1] = "cut" -> Cut(t, op[2])
    [] op[1] = "singletons" -> Singletons(t)
    [] op[1] = "exits" -> EarlyExits(t, op[2], op[3])
    [] op[1] = "regions" -> RegionOptions(t, op[2], op[3])
    [] op[1] = "single" -> SingleRegions(t)

\* An observation of a transform: result, and the argument afterwards.
Wrong(op, t, ob) ==
  IF ob.result # Apply(op, t) THEN "result of " \o op[1]
  ELSE IF ob.arg # t THEN op[1] \o " modified its argument"
  ELSE IF ob.text # TreeText(ob.result) THEN "rendered text after " \o op[1]
  ELSE IF ob.depth # Depth(ob.result) THEN "depth after " \o op[1]
  ELSE IF ob.leaves # Walk(ob.result, FALSE, FALSE, <<>>) THEN "leaves after " \o op[1]
  ELSE IF ob.walk # Walk(ob.result, ob.before, ob.after, <<>>) THEN "walk after " \o op[1]
  ELSE ""

Init == /\ \E k \in 1..Len(Cases) : ci = k
        /\ l = 1 /\ cur = In.tree /\ said = FALSE
Say(c) == /\ said' = TRUE
          /\ IF c = "" THEN PrintT(<<"OK", Cases[ci].id>>)
             ELSE PrintT(<<"BAD", Cases[ci].id, c>>)
Step == /\ ~said
        /\ IF "exc" \in DOMAIN Out THEN Say("raised " \o Out.exc) /\ UNCHANGED <<ci, l, cur>>
           ELSE IF l > Len(In.ops) THEN Say("") /\ UNCHANGED <<ci, l, cur>>
           ELSE LET w == Wrong(In.ops[l], cur, Out.steps[l]) IN
                IF w # "" THEN Say(w) /\ UNCHANGED <<ci, l, cur>>
                ELSE /\ l' = l + 1 /\ cur' = Out.steps[l].result
                     /\ UNCHANGED <<ci, said>>
Spec == Init /\ [][Step]_vars
=============================================================================
