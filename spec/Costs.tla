-------------------------------- MODULE Costs --------------------------------
(***************************************************************************)
(* Costs derived from a threshold p = P/D ("effective precision"), a         *)
(* sensitivity s = S/D of edits inside regions and the cost C of starting an *)
(* edit.  All amounts are multiples of 1/D^2 so that they are integers.      *)
(***************************************************************************)
EXTENDS Integers
Derived(P, S, C, D) ==
  [hm |-> D * D, hd |-> D * D, ins |-> 0, hs |-> C * D * D,
   ld |-> D * D - 2 * P * (D - S),
   lm |-> 2 * S * D - (D * D - 2 * P * (D - S)),
   ls |-> S * C * D,
   reg |-> (D - P) * (D - S) * C]
\* The conditions these amounts are the solution of (all in units of 1/D^3).
Solves(x, P, S, C, D) ==
  /\ x.hm = D * D /\ x.hd = D * D /\ x.ins = 0 /\ x.hs = C * D * D
  /\ D * (x.lm + x.ld) = S * (x.hm + x.hd)
  /\ D * x.ls = S * x.hs
  /\ P * x.hm - (D - P) * x.hd = P * x.lm - (D - P) * x.ld
  /\ (D - P) * x.hs = (D - P) * x.ls + D * x.reg
\* Cost of a token of n characters that is right / wrong, shown plainly / in a region.
HighRight(x, n) == -(n * x.hm)
HighWrong(x, n) == n * x.hd + x.hs
LowRight(x, n) == x.reg - n * x.lm
LowWrong(x, n) == n * x.ld + x.ls + x.reg
\* Expected cost (in 1/D^3) when the token is right with probability Q/D.
ExpHigh(x, n, Q, D) == Q * HighRight(x, n) + (D - Q) * HighWrong(x, n)
ExpLow(x, n, Q, D) == Q * LowRight(x, n) + (D - Q) * LowWrong(x, n)
Sign(a) == IF a > 0 THEN 1 ELSE IF a < 0 THEN -1 ELSE 0
\* A region is worth it exactly below the threshold.
BreakEven(x, n, P, S, C, D) == \A Q \in 0..D :
  Sign(ExpLow(x, n, Q, D) - ExpHigh(x, n, Q, D)) =
    IF S < D /\ n + C > 0 THEN Sign(Q - P) ELSE 0
\* A correct token is never worth less than a wrong one.
Ordered(x, n) == HighRight(x, n) <= HighWrong(x, n) /\ LowRight(x, n) <= LowWrong(x, n)
---------------------------------------------------------------------------
(* Selecting calls: weight of a selected part is the sum of its tokens'       *)
(* weights; found it earns weight * (1-p), not found it costs weight * p.     *)
Weight(kind) == CASE kind = "NOVEL" -> 10 [] kind \in {"EXPECTED", "ARGS", "EMPTY_ARGS"} -> 1
                  [] OTHER -> 0
CallFound(w, P, D) == -(w * (D - P))       \* in 1/D
CallWrong(w, P, D) == w * P
CallBreakEven(f, g, w, P, D) == \A Q \in 0..D :
  Sign(Q * f + (D - Q) * g) = IF w > 0 THEN Sign(P - Q) ELSE 0
=============================================================================
