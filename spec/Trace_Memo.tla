------------------------------ MODULE Trace_Memo ------------------------------
(* Histories of penalty updates and queries recorded from the real tables: the *)
(* state is the penalty matrix of every table (tables can be copied), and each *)
(* recorded answer must be the minimum over all paths under that state.        *)
EXTENDS PackedDag, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES ci, pc, pens, why
vars == <<ci, pc, pens, why>>
C == Cases[ci]
Ks(c) == SortedSeq(Keys(c.in.dag.edges))
Vs(c) == c.out.values
Sum(c) == Summaries(c.in.dag.edges, c.in.dag.init, c.in.dag.final, Ks(c), Vs(c), c.in.missing)
NV(c) == Len(Vs(c))
Zero(c) == [k \in 1..Len(Ks(c)) |-> [v \in 1..NV(c) |-> 0]]
TInit == /\ \E k \in 1..Len(Cases) : ci = k
         /\ pc = 1
         /\ LET c == Cases[ci] IN
            IF "exc" \in DOMAIN c.out THEN why = "raised " \o c.out.exc /\ pens = <<>>
            ELSE why = "" /\ pens = <<Zero(c)>>
Verdict(w) == IF w = "" THEN PrintT(<<"OK", C.id>>) ELSE PrintT(<<"BAD", C.id, w>>)
NOVAL == -1000001
RECURSIVE PenSum2(_, _, _)
PenSum2(PE, p, pen) ==   \* penalties collected along a packed path
  IF p = <<>> THEN 0
  ELSE LET e == PE[Head(p)] IN
       Add(IF Key(e) = -1 THEN 0 ELSE pen[Key(e) + 1][Val(e) + 1], PenSum2(PE, Tail(p), pen))
Clause(c, op, ans, pn) ==
  LET S == Sum(c)  pen == pn[op.m + 1] IN
  IF op.op = "set" THEN ""
  ELSE IF op.op = "marg" THEN
       (IF ans = Marginal(S, pen, op.k + 1, NV(c)) THEN "" ELSE "min marginals of one variable")
  ELSE IF op.op = "all" THEN
       (IF ans = [k \in 1..Len(Ks(c)) |-> Marginal(S, pen, k, NV(c))] THEN "" ELSE "all min marginals")
  ELSE IF op.op = "min" THEN
       (IF ans = BestCost(S, pen) THEN "" ELSE "minimal cost")
  ELSE IF op.op = "best" THEN
       (* unspecified when nothing is feasible *)
       IF BestCost(S, pen) >= INF THEN ""
       ELSE LET p == [j \in DOMAIN ans.path |-> ans.path[j] + 1]
                E == c.in.dag.edges
                dec == [k \in 1..Len(Ks(c)) |-> IndexIn(Vs(c), PathDec(E, p, Keys(E), c.in.missing)[Ks(c)[k]])] IN
            IF p \notin Paths(E, c.in.dag.init, c.in.dag.final) THEN "extracted path is not a path"
            ELSE IF Penalised([cost |-> PathCost(E, p), dec |-> dec], pen) # BestCost(S, pen)
                 THEN "extracted path is not optimal"
            ELSE IF ans.dec # [k \in 1..Len(Ks(c)) |-> Vs(c)[dec[k]]] THEN "decisions of the extracted path"
            ELSE IF \E j \in DOMAIN ans.tpath : ~(\E e \in DOMAIN c.out.tagged : c.out.tagged[e] = ans.tpath[j])
                 THEN "tagged path has an edge that does not exist"
            ELSE IF \E j \in 1..Len(ans.tpath) - 1 : ans.tpath[j][2] # ans.tpath[j + 1][1]
                 THEN "tagged path has a gap"
            ELSE LET own == SelectSeq(ans.tpath, LAMBDA e : e[6] # -1)
                     dc == SelectSeq(ans.tpath, LAMBDA e : e[4] # -1) IN
                 IF [j \in DOMAIN own |-> own[j][6]] # ans.path THEN "tagged path disagrees"
            ELSE IF [j \in DOMAIN dc |-> <<dc[j][4], dc[j][5]>>] # [k \in DOMAIN ans.dec |-> <<Ks(c)[k], ans.dec[k]>>]
                 THEN "decisions along the tagged path"
            ELSE ""
  ELSE IF op.op = "tables" THEN
       (* entries that are shown must be right; hidden entries are NOVAL *)
       LET K == Len(Ks(c)) n == Len(ans.pre) PE == c.out.packed
           cost(p) == Add(PathCost(PE, p), PenSum2(PE, p, pen)) IN
       IF \E x \in 1..n : ans.pre[x] # NOVAL
            /\ ans.pre[x] # MinOf({cost(p) : p \in Paths(PE, 0, x - 1)}) THEN "prefix table"
       ELSE IF \E x \in 1..n : ans.suf[x] # NOVAL
            /\ ans.suf[x] # MinOf({cost(p) : p \in Paths(PE, x - 1, n - 1)}) THEN "suffix table"
       ELSE IF ans.pen # pen THEN "penalties"
       ELSE ""
  ELSE IF op.op = "copy" THEN ""
  ELSE "unknown op"
TNext ==
  /\ pc > 0
  /\ IF why # "" \/ pc > Len(C.in.ops)
     THEN Verdict(why) /\ pc' = 0 /\ UNCHANGED <<pens, why>>
     ELSE LET op == C.in.ops[pc] IN
          /\ pc' = pc + 1
          /\ pens' = IF op.op = "set" THEN [pens EXCEPT ![op.m + 1][op.k + 1] = op.vec]
                     ELSE IF op.op = "copy" THEN Append(pens, pens[op.m + 1])
                     ELSE pens
          /\ why' = Clause(C, op, C.out.ans[pc], pens)
  /\ UNCHANGED ci
TSpec == TInit /\ [][TNext]_vars
=============================================================================
