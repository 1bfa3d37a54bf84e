----------------------------- MODULE MC_Convert -----------------------------
(* Subtokenization on all short texts: lossless, no empty token, and cuts    *)
(* only where the character class or the spacing changes.                    *)
EXTENDS Subtokens, IOUtils, TLC
VARIABLE c
Alpha == {65, 98, 49, 95, 32, 10, 233}
Init == c = <<>>
Next == Len(c) < atoi(IOEnv.MAXLEN) /\ \E x \in Alpha : c' = Append(c, x)
Spec == Init /\ [][Next]_c
InvLossless == Flat(Subtokenize(c)) = c
InvNonEmpty == \A k \in 1..Len(Subtokenize(c)) : Subtokenize(c)[k] # <<>>
\* a token is one class, except for one capital followed by small letters
InvPure == \A k \in 1..Len(Subtokenize(c)) :
   LET t == Subtokenize(c)[k]  S == {Cls(t[j]) : j \in 1..Len(t)}
   IN \/ \E a \in 1..4 : S = {a}
      \/ Cls(t[1]) = 1 /\ \A j \in 2..Len(t) : Cls(t[j]) = 2
=============================================================================
