------------------------------ MODULE MC_Align ------------------------------
(* All ways to read a few scored tokens in pieces.                            *)
EXTENDS Align
Toks == { <<w, s>> : w \in {<<>>, <<97>>, <<97, 98>>, <<99, 97, 98>>}, s \in {-1, -5} }
Streams == UNION {[1..n -> Toks] : n \in 0..3}
VARIABLES orig, rest, got, pieces
vars == <<orig, rest, got, pieces>>
Init == orig \in Streams /\ rest = orig /\ got = <<>> /\ pieces = <<>>
Next == /\ Len(pieces) < 4
        /\ \E len \in 0..3 : LET r == Read(rest, len) IN
             rest' = r[3] /\ got' = got \o r[1] /\ pieces' = Append(pieces, <<r[1], r[2]>>)
        /\ UNCHANGED orig
Spec == Init /\ [][Next]_vars
\* nothing is lost or invented
InvText == got \o AllText(rest) = AllText(orig)
\* a piece scores at least as low as any token inside, never above zero
InvScore == \A k \in 1..Len(pieces) : pieces[k][2] <= 0
                /\ (pieces[k][1] # <<>> => pieces[k][2] < 0)
=============================================================================
