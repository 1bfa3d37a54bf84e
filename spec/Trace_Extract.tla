---------------------------- MODULE Trace_Extract ----------------------------
(* The extracted pieces and the rendered page show exactly the decisions.      *)
EXTENDS Regions, Judge
Ellipsis == <<65049>>   \* the marker the page shows for a region without text
TClause(c) ==
  IF Raised(c) THEN "raised " \o c.out.exc
  ELSE LET L == Listing(c.in.tree) IN
  IF ~WellFormed(L, c.in.vec) THEN "MACHINERY: ill-formed input"
  ELSE IF Chars(c.out.pieces) # Chars(Pieces(L, c.in.vec, c.in.marker))
       THEN "extracted text or its region membership"
  ELSE IF c.out.odd # <<>> THEN "malformed page"
  ELSE IF c.out.html # Chars(Pieces(L, c.in.vec, Ellipsis)) THEN "page text or highlighting"
  ELSE ""
=============================================================================
