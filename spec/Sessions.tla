------------------------------ MODULE Sessions ------------------------------
(***************************************************************************)
(* A session is a sequence of calls answered by one process.  What it may show *)
(* is what a machine without memory shows: the answer to a call is a function   *)
(* of the call alone, and the arguments come back unchanged.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences
\* F[c]: the answer to call c in a fresh process.  An entry of the log is
\* <<call, answer, 1 iff the arguments are unchanged>>.
Faithful(F, e) == e[2] = F[e[1]] /\ e[3] = 1
Memoryless(F, log) == \A k \in DOMAIN log : Faithful(F, log[k])
=============================================================================
