----------------------------- MODULE MC_Cursor -----------------------------
EXTENDS Cursor, IOUtils
MCLang(k) == k[1]
MCText(k) == k[2]
MCSpi(k)  == k[3]
Range(s) == {s[k] : k \in 1..Len(s)}
Alpha == CASE IOEnv.ALPHA = "braces" -> <<123, 125, 59, 97, 40, 41>>      \* {};a()
           [] IOEnv.ALPHA = "indent" -> <<97, 32, 10, 40, 41>>
MaxLen == atoi(IOEnv.MAXLEN)
Texts == UNION {[1..n -> Range(Alpha)] : n \in 0..MaxLen}
MCInit == \E t \in Texts :
             PInit(<<IF IOEnv.ALPHA = "indent" THEN "python" ELSE "java", t, 1>>)
MCSpec == MCInit /\ [][PNext]_pvars
=============================================================================
