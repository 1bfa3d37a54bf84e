-------------------------------- MODULE Judge --------------------------------
(* Common part of the trace specifications that judge one case per step: the *)
(* extending module defines Clause(case) ("" means accepted).                *)
EXTENDS Json, IOUtils, TLC, Sequences, Integers
Cases == ndJsonDeserialize(IOEnv.CASES)
CONSTANT Clause(_)
VARIABLES ci, said
jvars == <<ci, said>>
Raised(c) == "exc" \in DOMAIN c.out
JInit == (\E k \in 1..Len(Cases) : ci = k) /\ said = FALSE
JNext == /\ ~said /\ said' = TRUE /\ UNCHANGED ci
         /\ LET c == Cases[ci]
                w == Clause(c)
            IN IF w = "" THEN PrintT(<<"OK", c.id>>)
               ELSE PrintT(<<"BAD", c.id, w>>)
JSpec == JInit /\ [][JNext]_jvars
=============================================================================
