--------------------------- MODULE Trace_Matching ---------------------------
(* Judges recorded corrections, matchings and splittings of the real code. *)
EXTENDS Matching, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES at, told
Out == Cases[at].out
MClause ==
  IF "exc" \in DOMAIN Out THEN "raised " \o Out.exc
  ELSE IF mph = "done" /\ (<<Out.pre, Out.suf>> # mpre) THEN "corrections"
  ELSE IF mph = "error" THEN (IF Out.error THEN "" ELSE "an ill-formed sequence was accepted")
  ELSE IF Out.error THEN "a well-formed sequence was rejected"
  ELSE IF Out.tree # mst THEN "bracket tree"
  ELSE IF Out.split # mtree THEN "statement split"
  ELSE IF ~Out.kept THEN "an argument was modified"
  ELSE IF Out.valid # <<TRUE, TRUE>> THEN "validity test"
  ELSE ""
TInit == \E k \in 1..Len(Cases) : MInit(Cases[k].in) /\ at = k /\ told = FALSE
Tell == /\ mph \in {"done", "error"} /\ ~told /\ told' = TRUE
        /\ LET c == MClause IN
           IF c = "" THEN PrintT(<<"OK", Cases[at].id>>)
           ELSE PrintT(<<"BAD", Cases[at].id, c>>)
        /\ UNCHANGED <<mvars, at>>
TNext == (MNext /\ UNCHANGED <<at, told>>) \/ Tell
TSpec == TInit /\ [][TNext]_<<mvars, at, told>>
=============================================================================
