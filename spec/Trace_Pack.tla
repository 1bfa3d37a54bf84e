------------------------------ MODULE Trace_Pack ------------------------------
EXTENDS PackedDag, Judge
One(c, o) ==
  LET E == c.in.dag.edges  i == c.in.dag.init  f == c.in.dag.final
      vs == IF c.in.order = <<>> THEN SortedSeq(Vals(E) \cup {c.in.missing}) ELSE c.in.order
      ks == SortedSeq(Keys(E))  n == Len(o.states)
      w == FaithfulPacking(E, i, f, o.edges, n, ks, vs, c.in.missing) IN
  IF o.keys # ks THEN "variable keys"
  ELSE IF o.values # vs THEN "variable values"
  ELSE IF o.nums # <<n, Len(ks), Len(vs)>> THEN "sizes"
  ELSE IF o.states[1] # <<i, -1>> \/ o.states[n] # <<f, Len(ks) - 1>> THEN "first or last state"
  ELSE IF w # "" THEN w
  ELSE IF ~Layout(o.edges, n, Len(ks), o.eb, o.sb) THEN "group boundaries"
  ELSE IF o.orig # E THEN "original edges"
  ELSE IF \E x \in DOMAIN o.tagged : LET t == o.tagged[x]  e == o.edges[x] IN
          t # <<o.states[Src(e) + 1], o.states[Dst(e) + 1], Cost(e),
                IF Key(e) = -1 THEN -1 ELSE ks[Key(e) + 1],
                IF Key(e) = -1 THEN -1 ELSE vs[Val(e) + 1], Info(e)>>
       THEN "tagged edges"
  ELSE IF \E x \in 1..n : o.outgoing[x] # SelectSeq([j \in DOMAIN o.edges |-> j - 1],
                                           LAMBDA j : Src(o.edges[j + 1]) = x - 1)
       THEN "outgoing edge lists"
  ELSE IF o.keyix # [k \in DOMAIN ks |-> k - 1] \/ o.valix # [k \in DOMAIN vs |-> k - 1]
       THEN "index lookups"
  ELSE IF \E x \in DOMAIN o.edges : o.scaled[x] # [o.edges[x] EXCEPT ![3] = @ * c.in.scale]
       THEN "scaling"
  ELSE IF o.again # o.edges THEN "scaling modified its input"
  ELSE ""
Valid(c) == KeysOrdered(c.in.dag.edges, c.in.dag.init, c.in.dag.final)
Side(c, o) ==
  IF ~Valid(c) THEN (IF "exc" \in DOMAIN o /\ o.exc = "ValueError" THEN ""
                     ELSE "violation of the variable order not rejected")
  ELSE IF "exc" \in DOMAIN o THEN "raised " \o o.exc
  ELSE One(c, o)
TClause(c) ==
  IF Raised(c) THEN "raised " \o c.out.exc
  ELSE LET a == Side(c, c.out.plain)  b == Side(c, c.out.typed) IN
       IF a # "" THEN a ELSE IF b # "" THEN b \o " (specialised)" ELSE ""
=============================================================================
