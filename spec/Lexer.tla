------------------------------- MODULE Lexer -------------------------------
(***************************************************************************)
(* The tokenizer of the pseudo parser, one language preset at a time.      *)
(* A text is a sequence of code points.  NextTok(lang, c, i) is the token  *)
(* that starts at position i (1-based): its type and the position just     *)
(* after it.  The presets are ordered alternatives: the first that matches *)
(* wins, and the last one (OTHER) matches any single character, so every   *)
(* text is tokenized completely and without loss.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences

Langs == {"python", "python_preprocessor", "simple", "cpp", "java", "javascript"}
PyLang(l) == l \in {"python", "python_preprocessor"}
CLang(l)  == l \in {"cpp", "java", "javascript"}

NL == 10   SP == 32   TABC == 9   DQ == 34   SQ == 39   BS == 92   HASH == 35
SLASH == 47   STAR == 42

\* The alphabet of the checks also contains some non-ASCII digits and spaces.
Digit == (48..57) \cup {1635, 2407}
Word  == (48..57) \cup (65..90) \cup (97..122) \cup {95}
Space == (9..13) \cup (28..31) \cup {32, 133, 160, 8195, 8232}
Brackets == {40, 41, 91, 93, 123, 125}
OpChars == {43, 45, 42, 47}
PuncChars == {44, 46, 59, 58, 61, 62, 60}

At(c, i) == IF i >= 1 /\ i <= Len(c) THEN c[i] ELSE -1

IsAt(c, i, w) == /\ i + Len(w) - 1 <= Len(c)
                 /\ \A k \in 1..Len(w) : c[i + k - 1] = w[k]

\* Position after the longest run of characters of S starting at i.
RECURSIVE RunEnd(_, _, _)
RunEnd(c, i, S) == IF At(c, i) \in S THEN RunEnd(c, i + 1, S) ELSE i

\* Position after the run of characters that are not in S (S: stop set).
RECURSIVE RunUntil(_, _, _)
RunUntil(c, i, S) ==
  IF i <= Len(c) /\ c[i] \notin S THEN RunUntil(c, i + 1, S) ELSE i

\* First position >= i at which w occurs, 0 if there is none.
RECURSIVE FindFrom(_, _, _)
FindFrom(c, i, w) ==
  IF i > Len(c) THEN 0 ELSE IF IsAt(c, i, w) THEN i ELSE FindFrom(c, i + 1, w)

----------------------------------------------------------------------------
\* Python string literals: the literal ends at the first closing quote q that
\* is not escaped; a quote is escaped by a backslash that is not itself
\* preceded by a backslash.  If that leaves the literal open to the end of the
\* text, the last escaped quote that can close it does (result 0: no literal).
RECURSIVE PyClose(_, _, _)
PyClose(c, i, q) ==
  IF i > Len(c) THEN 0
  ELSE IF IsAt(c, i, q) THEN i + Len(q)
  ELSE IF c[i] = BS /\ At(c, i - 1) # BS /\ IsAt(c, i + 1, q)
       THEN LET r == PyClose(c, i + 1 + Len(q), q)
            IN IF r # 0 THEN r ELSE PyClose(c, i + 1, q)
  ELSE PyClose(c, i + 1, q)

PyString(c, i) ==
  LET Try(q) == IF IsAt(c, i, q) THEN PyClose(c, i + Len(q), q) ELSE 0
      a == Try(<<DQ, DQ, DQ>>)
      b == Try(<<SQ, SQ, SQ>>)
      d == Try(<<DQ>>)
      e == Try(<<SQ>>)
  IN IF a # 0 THEN a ELSE IF b # 0 THEN b ELSE IF d # 0 THEN d ELSE e

\* Quoted literal of the brace languages: backslash escapes one character.
RECURSIVE CClose(_, _, _)
CClose(c, i, q) ==
  IF i > Len(c) THEN 0
  ELSE IF c[i] = q THEN i + 1
  ELSE IF c[i] = BS THEN (IF i + 1 <= Len(c) THEN CClose(c, i + 2, q) ELSE 0)
  ELSE CClose(c, i + 1, q)

\* Block comment or quoted literal: one lexical class in the brace languages.
CBlock(c, i) ==
  IF IsAt(c, i, <<SLASH, STAR>>)
  THEN LET e == FindFrom(c, i + 2, <<STAR, SLASH>>) IN IF e = 0 THEN 0 ELSE e + 2
  ELSE IF At(c, i) = SQ THEN CClose(c, i + 1, SQ)
  ELSE IF At(c, i) = DQ THEN CClose(c, i + 1, DQ)
  ELSE 0

Directives == {
  <<35,105,110,99,108,117,100,101>>,   \* #include
  <<35,100,101,102,105,110,101>>,      \* #define
  <<35,117,110,100,101,102>>,          \* #undef
  <<35,105,102,100,101,102>>,          \* #ifdef
  <<35,105,102,110,100,101,102>>,      \* #ifndef
  <<35,108,105,110,101>>,              \* #line
  <<35,105,102>>,                      \* #if
  <<35,101,110,100,105,102>>,          \* #endif
  <<35,101,114,114,111,114>> }         \* #error

\* A directive runs to the end of the line (a backslash continues the line) or
\* up to a parenthesis, a bar, a slash or a star.
RECURSIVE DirEnd(_, _)
DirEnd(c, i) ==
  IF i > Len(c) THEN i
  ELSE IF c[i] = BS /\ At(c, i + 1) = NL THEN DirEnd(c, i + 2)
  ELSE IF c[i] \in {40, 41, NL, 124, SLASH, STAR} THEN i
  ELSE DirEnd(c, i + 1)

Directive(c, i) ==
  IF At(c, i) = HASH /\ \E d \in Directives : IsAt(c, i, d)
  THEN DirEnd(c, i + 3) ELSE 0

----------------------------------------------------------------------------
Tok(t, e) == [t |-> t, hi |-> e]

Basic(c, i) ==
  LET x == c[i] IN
  IF x \in Digit
  THEN LET e == RunEnd(c, i, Digit)
       IN Tok("NUMBER", IF At(c, e) = 46 THEN RunEnd(c, e + 1, Digit) ELSE e)
  ELSE IF x \in Word THEN Tok("ID", RunEnd(c, i, Word))
  ELSE IF x \in OpChars THEN Tok("OP", i + 1)
  ELSE IF x \in PuncChars THEN Tok("PUNC", i + 1)
  ELSE IF x \in Brackets THEN Tok("BRACE", i + 1)
  ELSE IF x = NL THEN Tok("NEWLINE", i + 1)
  ELSE IF x = TABC THEN Tok("TAB", i + 1)
  ELSE IF x = SP THEN Tok("WHITE_SPACE", RunEnd(c, i, {SP}))
  ELSE Tok("OTHER", i + 1)

NextTok(lang, c, i) ==
  IF PyLang(lang)
  THEN LET s == PyString(c, i)
       IN IF s # 0 THEN Tok("STRING", s)
          ELSE IF c[i] = HASH THEN Tok("COMMENT_HASH", RunUntil(c, i, {NL}))
          ELSE Basic(c, i)
  ELSE IF CLang(lang)
  THEN LET d == IF lang = "cpp" THEN Directive(c, i) ELSE 0
           b == CBlock(c, i)
       IN IF d # 0 THEN Tok("C_PREPROCESSOR", d)
          ELSE IF IsAt(c, i, <<SLASH, SLASH>>)
               THEN Tok("COMMENT_SLASHSLASH", RunUntil(c, i, {NL}))
          ELSE IF b # 0 THEN Tok("COMMENT_SLASHSTAR", b)
          ELSE Basic(c, i)
  ELSE Basic(c, i)

RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))

AllSpace(c) == Len(c) > 0 /\ \A k \in 1..Len(c) : c[k] \in Space
LeadingSpace(c) == RunEnd(c, 1, Space) - 1
=============================================================================
