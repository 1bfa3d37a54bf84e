---------------------------- MODULE Trace_Cursor ----------------------------
(* Judges recorded truncation points, indent widths and docstring positions. *)
EXTENDS Cursor, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
TLang(k) == Cases[k].in.lang
TText(k) == Cases[k].in.text
TSpi(k)  == IF Cases[k].in.spi > 0 THEN Cases[k].in.spi
            ELSE IF "exc" \in DOMAIN Cases[k].out THEN 1 ELSE Cases[k].out.spi
Mode == IOEnv.CLAUSES
VARIABLE said
tvars == <<ci, ph, i, toks, ops, pre, fr, aux, tree, said>>
Out == Cases[ci].out
In == Cases[ci].in

ClauseTrunc ==
  LET Off(got, want) == {c \in 0..TextLen : got[c + 1] # want[c]}
      bad == Off(Out.trunc, Truncations(Lang(ci)))
      badany == Off(Out.pair, BlockEnds("any"))
      badsep == Off(Out.sep, StatementEnds({}))
      badkind == Off(Out.kind, BlockEnds(In.kind))
      badseps == Off(Out.seps, StatementEnds({In.seps[k] : k \in DOMAIN In.seps}))
  IN IF Len(Out.trunc) # TextLen + 1 THEN "one answer per cursor"
     ELSE IF bad # {} THEN "truncation point for cursor " \o ToString(bad)
     ELSE IF badany # {} THEN "end of the surrounding pair for cursor " \o ToString(badany)
     ELSE IF badsep # {} THEN "end of the statement for cursor " \o ToString(badsep)
     ELSE IF badkind # {} THEN "end of the surrounding " \o In.kind \o " for cursor " \o ToString(badkind)
     ELSE IF badseps # {} THEN "end of the statement (given separators) for cursor " \o ToString(badseps)
     ELSE ""

ClauseIndent ==
  IF Out.width # IndentWidth({1, 2, 3, 4}) THEN "indent width"
  ELSE IF Out.width2 # IndentWidth({In.cands[k] : k \in 1..Len(In.cands)})
       THEN "indent width for given candidates"
  ELSE ""

ClauseDocs ==
  IF Out.docs # Docs(tree, Spi(ci)) THEN "docstring positions"
  ELSE IF \E k \in 1..Len(Out.docs) : Out.ends[k] # DocEnd(Text(ci), Out.docs[k])
       THEN "docstring ends"
  ELSE ""

Clause == IF "exc" \in DOMAIN Out THEN "raised " \o Out.exc
          ELSE CASE Mode = "trunc" -> ClauseTrunc
                 [] Mode = "indent" -> ClauseIndent
                 [] Mode = "docs" -> ClauseDocs

TInit == /\ \E k \in 1..Len(Cases) : PInit(k)
         /\ said = FALSE
Judge == /\ ph = "done" /\ ~said /\ said' = TRUE
         /\ LET c == Clause IN
            IF c = "" THEN PrintT(<<"OK", Cases[ci].id>>)
            ELSE PrintT(<<"BAD", Cases[ci].id, c>>)
         /\ UNCHANGED pvars
TNext == (PNext /\ UNCHANGED said) \/ Judge
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
