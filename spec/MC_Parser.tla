----------------------------- MODULE MC_Parser -----------------------------
(* Exhaustive exploration of the parser on all short texts of an alphabet. *)
EXTENDS PseudoParser, IOUtils
MCLang(k) == k[1]
MCText(k) == k[2]
MCSpi(k)  == k[3]
Range(s) == {s[k] : k \in 1..Len(s)}
Alpha == CASE IOEnv.ALPHA = "brackets" -> <<40, 41, 91, 93, 59, 97>>      \* ()[];a
           [] IOEnv.ALPHA = "indent"   -> <<97, 58, 32, 10, 40, 41>>      \* a: \n()
           [] IOEnv.ALPHA = "literals" -> <<34, 39, 92, 35, 10, 47, 42, 40>>  \* "'\#\n/*(
MaxLen == atoi(IOEnv.MAXLEN)
MCLangs == CASE IOEnv.ALPHA = "brackets" -> {"simple", "cpp", "python"}
             [] IOEnv.ALPHA = "indent" -> {"python"}
             [] IOEnv.ALPHA = "literals" -> {"python", "cpp", "java"}
Texts == UNION {[1..n -> Range(Alpha)] : n \in 0..MaxLen}
MCInit == \E l \in MCLangs, t \in Texts : \E s \in (IF l = "python" THEN {1, 2} ELSE {1}) :
             PInit(<<l, t, s>>)
MCSpec == MCInit /\ [][PNext]_pvars
\* every behaviour reaches its result: a state without successor is a result
InvProgress == (~ ENABLED PNext) => ph = "done"
=============================================================================
