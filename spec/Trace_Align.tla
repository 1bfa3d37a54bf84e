----------------------------- MODULE Trace_Align -----------------------------
(* Validates recorded reading histories (one read per step) and alignments of *)
(* whole trees (one tree leaf per step).                                      *)
EXTENDS Align, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES ci, l, rest, acc, said
vars == <<ci, l, rest, acc, said>>
In == Cases[ci].in
Out == Cases[ci].out
Say(c) == /\ said' = TRUE /\ UNCHANGED <<ci, l, rest, acc>>
          /\ IF c = "" THEN PrintT(<<"OK", Cases[ci].id>>)
             ELSE PrintT(<<"BAD", Cases[ci].id, c>>)
Init == /\ \E k \in 1..Len(Cases) : ci = k
        /\ l = 1 /\ rest = In.model /\ acc = <<>> /\ said = FALSE

\* how a list of scored tokens is displayed: line ends are made visible
RECURSIVE Visible(_)
Visible(w) == IF w = <<>> THEN <<>>
              ELSE (IF Head(w) = 10 THEN <<8617, 10>> ELSE <<Head(w)>>) \o Visible(Tail(w))
Display(toks) == [k \in 1..Len(toks) |-> <<Visible(toks[k][1]), toks[k][2]>>]

\* histories of direct reads
ReadStep ==
  /\ ~said /\ In.mode = "reads"
  /\ IF "exc" \in DOMAIN Out THEN Say("raised " \o Out.exc)
     ELSE IF l > Len(In.lens) THEN
        Say(IF Out.consumed # AllEmpty(rest) THEN "consumption check"
            ELSE IF Out.html # Display(In.model) THEN "display" ELSE "")
     ELSE LET r == Read(rest, In.lens[l]) IN
        IF Out.reads[l] # <<r[1], r[2]>> THEN Say("read " \o ToString(l))
        ELSE l' = l + 1 /\ rest' = r[3] /\ UNCHANGED <<ci, acc, said>>

\* alignment of a tree: leaves with text in document order
RECURSIVE LeavesOf(_, _)
LeavesOf(t, first) ==   \* <<preorder index, node>>
  IF t = <<>> THEN <<>>
  ELSE LET n == Head(t) IN
       (IF K(n) \in {"TOK", "DEC"} THEN << <<first, n>> >>
        ELSE IF K(n) = "GRP" THEN LeavesOf(Ch(n), first + 1) ELSE <<>>)
       \o LeavesOf(Tail(t), first + 1 + Len(Walk(Ch(n), TRUE, FALSE, <<>>)))
Leaf(k) == LeavesOf(In.tree, 0)[k]
NLeaves == Len(LeavesOf(In.tree, 0))
AlignEnd ==   \* expected outcome once all leaves were read
  IF In.all /\ ~AllEmpty(rest) THEN "ValueError" ELSE ""
AlignStep ==
  /\ ~said /\ In.mode = "align"
  /\ IF l > NLeaves THEN
        Say(IF AlignEnd # "" THEN (IF "exc" \in DOMAIN Out /\ Out.exc = AlignEnd THEN ""
                                   ELSE "unused model tokens accepted")
            ELSE IF "exc" \in DOMAIN Out THEN "raised " \o Out.exc
            ELSE IF Out.scores # SelectSeq(acc, LAMBDA x : x[3]) THEN "scores of the tokens"
            ELSE IF Out.flat # [k \in 1..Len(acc) |-> <<Leaf(k)[2][2],
                                  IF acc[k][3] THEN acc[k][2] ELSE 0>>]
                 THEN "flat list of tokens and scores"
            ELSE IF Out.html # Display(Out.flat) THEN "display"
            ELSE "")
     ELSE LET n == Leaf(l)  r == Read(rest, Len(n[2][2])) IN
        IF r[1] # n[2][2] THEN
           Say(IF "exc" \in DOMAIN Out /\ Out.exc = "ValueError" THEN ""
               ELSE "different texts accepted")
        ELSE /\ l' = l + 1 /\ rest' = r[3]
             /\ acc' = Append(acc, <<n[1], r[2], K(n[2]) = "TOK">>)
             /\ UNCHANGED <<ci, said>>
\* the display of a scored suggestion behind its context: as scored by the model, or
\* with the scores moved to the tokens of the parse (decorations count as certain)
RECURSIVE Moved(_, _)
Moved(lv, s) ==
  IF lv = <<>> THEN <<>>
  ELSE LET n == Head(lv)[2]  r == Read(s, Len(n[2])) IN
       << <<n[2], IF K(n) = "TOK" THEN r[2] ELSE 0>> >> \o Moved(Tail(lv), r[3])
ShowStep ==
  /\ ~said /\ In.mode = "show"
  /\ Say(IF "exc" \in DOMAIN Out THEN "raised " \o Out.exc
         ELSE IF Out.shows # 1 THEN "number of displays"
         ELSE IF Out.before # In.ctx THEN "displayed context"
         ELSE IF Out.html # Display(IF In.realign THEN Moved(LeavesOf(Cut(Out.parsed, Len(In.ctx)), 0), In.model)
                                    ELSE In.model)
              THEN "displayed tokens"
         ELSE "")
Spec == Init /\ [][ReadStep \/ AlignStep \/ ShowStep]_vars
=============================================================================
