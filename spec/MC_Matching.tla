---- MODULE MC_Matching ----
EXTENDS Matching, IOUtils
MaxLen == atoi(IOEnv.MAXLEN)
Pairs == <<<<1, 2>>, <<3, 4>>>>
Toks == UNION {[1..n -> 1..6] : n \in 0..MaxLen}
MCInit == \E t \in Toks, st \in BOOLEAN, cl \in {<<>>, <<<<1, 2>>>>} :
  MInit([toks |-> t, pairs |-> Pairs, seps |-> <<5>>, closed |-> cl, strict |-> st, fixed |-> TRUE])
MCSpec == MCInit /\ [][MNext]_mvars
InvProgress == (~ ENABLED MNext) => mph \in {"done", "error"}
====
