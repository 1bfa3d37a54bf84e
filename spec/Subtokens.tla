----------------------------- MODULE Subtokens -----------------------------
(***************************************************************************)
(* Lossless subtokenization: a finite state machine over character classes. *)
(* One step per character; a text is a sequence of code points.             *)
(***************************************************************************)
EXTENDS Lexer
Upper == (65..90) \cup {201, 916}
Lower == (97..122) \cup {170, 223, 233, 948}
\* superscripts and circled digits count here, though the tokenizer does not take them as numbers
SubDigit == Digit \cup {178, 9312}
\* class of a character: 1 upper, 2 lower, 3 digit, 4 anything else
Cls(x) == IF x \in Upper THEN 1 ELSE IF x \in Lower THEN 2
          ELSE IF x \in SubDigit THEN 3 ELSE 4
Blank(x) == x \in {SP, TABC}

\* What happens when character x (at position i > 1) follows the pending
\* characters mem, of which the last one is p:
\*   "join"   x is appended to the pending token
\*   "split"  the pending token is complete
\*   "steal"  the pending token is complete except for its last character
Action(mem, p, x) ==
  LET a == Cls(p)  b == Cls(x) IN
  IF a = b
  THEN IF a = 4
       THEN IF Blank(x) /\ x = p THEN (IF Len(mem) >= 20 THEN "split" ELSE "join")
            ELSE IF x \in Space \/ p \in Space THEN "split" ELSE "join"
       ELSE "join"
  ELSE IF a = 1 /\ b = 2 THEN (IF Len(mem) > 1 THEN "steal" ELSE "join")
  ELSE "split"

RECURSIVE SubTok(_, _, _, _)
SubTok(c, i, mem, out) ==
  IF i > Len(c) THEN (IF mem = <<>> THEN out ELSE Append(out, mem))
  ELSE IF mem = <<>> THEN SubTok(c, i + 1, <<c[i]>>, out)
  ELSE LET a == Action(mem, c[i - 1], c[i]) IN
       IF a = "join" THEN SubTok(c, i + 1, Append(mem, c[i]), out)
       ELSE IF a = "split" THEN SubTok(c, i + 1, <<c[i]>>, Append(out, mem))
       ELSE SubTok(c, i + 1, <<mem[Len(mem)], c[i]>>,
                   Append(out, SubSeq(mem, 1, Len(mem) - 1)))
Subtokenize(c) == SubTok(c, 1, <<>>, <<>>)
=============================================================================
