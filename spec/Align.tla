------------------------------- MODULE Align -------------------------------
(***************************************************************************)
(* Reading a sequence of scored model tokens in pieces of other lengths.   *)
(* A model token is <<text, score>>.  The score of a piece is the sum of   *)
(* the scores of all model tokens it overlaps, so a model token cut by a   *)
(* piece boundary counts on both sides.  Empty model tokens count for the  *)
(* piece after them; an empty piece takes the score of the next token.     *)
(***************************************************************************)
EXTENDS Trees

\* Reads len characters from the tokens s: <<text, score, remaining tokens>>
RECURSIVE ReadFrom(_, _, _, _)
ReadFrom(s, len, txt, sc) ==
  IF s = <<>> THEN <<txt, sc, <<>>>>
  ELSE LET h == Head(s)  n == Len(h[1]) IN
       IF n > len
       THEN <<txt \o SubSeq(h[1], 1, len), sc + h[2],
              << <<SubSeq(h[1], len + 1, n), h[2]>> >> \o Tail(s)>>
       ELSE IF n = len THEN <<txt \o h[1], sc + h[2], Tail(s)>>
       ELSE ReadFrom(Tail(s), len - n, txt \o h[1], sc + h[2])
Read(s, len) == ReadFrom(s, len, <<>>, 0)

AllEmpty(s) == \A k \in 1..Len(s) : s[k][1] = <<>>
RECURSIVE AllText(_)
AllText(s) == IF s = <<>> THEN <<>> ELSE Head(s)[1] \o AllText(Tail(s))
=============================================================================
