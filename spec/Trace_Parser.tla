---------------------------- MODULE Trace_Parser ----------------------------
(* Judges recorded parses of the real code.  The specification parses the   *)
(* recorded input; when it is done, the recorded result is compared.        *)
(* IOEnv.CLAUSES selects what is judged (the property being decided).       *)
EXTENDS PseudoParser, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
TLang(k) == Cases[k].in.lang
TText(k) == Cases[k].in.text
TSpi(k)  == Cases[k].in.spi
Mode == IOEnv.CLAUSES

VARIABLE said
tvars == <<ci, ph, i, toks, ops, pre, fr, aux, tree, said>>

Out == Cases[ci].out
Proj(f(_)) == [k \in 1..Len(toks) |-> f(toks[k])]
TT(x) == x.t   TS(x) == x.s   TR(x) == x.r

Clause ==
  IF "exc" \in DOMAIN Out THEN "raised " \o Out.exc
  ELSE IF Flat(Out.raws) # Text(ci) THEN "text of the parse differs from the input"
  ELSE IF Out.types # Proj(TT) THEN "token types"
  ELSE IF Out.raws # Proj(TR) THEN "token texts"
  ELSE IF Mode = "lex" THEN ""
  ELSE IF Out.toks # Proj(TS) THEN "tokens with corrections"
  ELSE IF <<Out.npre, Out.npost>> # aux THEN "number of corrections"
  ELSE IF Out.tree # tree THEN "parse tree"
  ELSE IF Out.walk # Walk(tree, -1, 0, 1) THEN "depth-first traversal or upward links"
  ELSE IF Out.valid # <<TRUE, TRUE, FALSE, FALSE, FALSE>> THEN "copy or validity test"
  ELSE ""

TInit == /\ \E k \in 1..Len(Cases) : PInit(k)
         /\ said = FALSE
Judge == /\ ph = "done" /\ ~said /\ said' = TRUE
         /\ LET c == Clause IN
            IF c = "" THEN PrintT(<<"OK", Cases[ci].id>>)
            ELSE PrintT(<<"BAD", Cases[ci].id, c>>)
         /\ UNCHANGED pvars
TNext == (PNext /\ UNCHANGED said) \/ Judge
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
