----------------------------- MODULE MC_Sessions -----------------------------
(* A process that remembers: it keeps answers of earlier calls (dropping them at  *)
(* will) and interns its vocabulary.  With a key that determines the call, what it *)
(* shows is memoryless for every order of calls; the vocabulary is never part of   *)
(* an answer.                                                                     *)
EXTENDS Sessions, FiniteSets, TLC, IOUtils
N == 3
MaxLen == IF "MAXLEN" \in DOMAIN IOEnv THEN atoi(IOEnv.MAXLEN) ELSE 4
Calls == 1..N
F == [c \in Calls |-> 10 * c]
Words(c) == {c, c % 2}
VARIABLES cache, vocab, log
vars == <<cache, vocab, log>>
Init == cache = <<>> /\ vocab = <<>> /\ log = <<>>
Lookup(c) == {k \in DOMAIN cache : cache[k][1] = c}
Intern(c) == LET new == Words(c) \ {vocab[k] : k \in DOMAIN vocab}
                 RECURSIVE add(_, _)
                 add(S, v) == IF S = {} THEN v
                              ELSE LET x == CHOOSE x \in S : TRUE IN add(S \ {x}, Append(v, x))
             IN add(new, vocab)
Answer(c) == /\ Len(log) < MaxLen
             /\ vocab' = Intern(c)
             /\ IF Lookup(c) # {}
                THEN log' = Append(log, <<c, cache[CHOOSE k \in Lookup(c) : TRUE][2], 1>>) /\ UNCHANGED cache
                ELSE log' = Append(log, <<c, F[c], 1>>) /\ cache' = Append(cache, <<c, F[c]>>)
Forget == cache # <<>> /\ cache' = Tail(cache) /\ UNCHANGED <<vocab, log>>
Next == (\E c \in Calls : Answer(c)) \/ Forget
Spec == Init /\ [][Next]_vars
InvMemoryless == Memoryless(F, log)
InvVocab == \A a, b \in DOMAIN vocab : vocab[a] = vocab[b] => a = b
=============================================================================
