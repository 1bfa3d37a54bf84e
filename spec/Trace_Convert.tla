---------------------------- MODULE Trace_Convert ----------------------------
EXTENDS Convert, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
TLang(k) == Cases[k].in.lang
TText(k) == Cases[k].in.text
TSpi(k)  == IF "exc" \in DOMAIN Cases[k].out THEN 1 ELSE Cases[k].out.spi
VARIABLE said
tvars == <<ci, ph, i, toks, ops, pre, fr, aux, tree, said>>
Out == Cases[ci].out
In == Cases[ci].in
Range(s) == {s[k] : k \in 1..Len(s)}

Clause ==
  IF "exc" \in DOMAIN Out THEN "raised " \o Out.exc
  ELSE LET t == <<ConvertNode(tree, HelperDecor, {"STRING_LITERAL"})>> IN
  IF Out.nodes # t THEN "suggestion tree"
  ELSE IF Out.flat # SFlatten(t) THEN "flattened suggestion tree"
  ELSE IF Out.custom # ConvertNode(tree, Range(In.decor), Range(In.sub))
       THEN "suggestion tree with chosen node types"
  ELSE IF Out.default # ConvertNode(tree, {"WHITE_SPACE_LEAF"}, {"STRING_LITERAL"})
       THEN "suggestion tree with default node types"
  ELSE IF Out.raw # SubNodes(Text(ci)) THEN "plain text subtokens"
  ELSE IF Flat(Out.subs) # Text(ci) THEN "subtokens do not concatenate to the text"
  ELSE IF Out.subs # Subtokenize(Text(ci)) THEN "subtokens"
  ELSE ""

TInit == /\ \E k \in 1..Len(Cases) : PInit(k)
         /\ said = FALSE
Judge == /\ ph = "done" /\ ~said /\ said' = TRUE
         /\ LET c == Clause IN
            IF c = "" THEN PrintT(<<"OK", Cases[ci].id>>)
            ELSE PrintT(<<"BAD", Cases[ci].id, c>>)
         /\ UNCHANGED pvars
TNext == (PNext /\ UNCHANGED said) \/ Judge
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
