-------------------------------- MODULE Edit --------------------------------
(***************************************************************************)
(* What it costs a user to turn an annotated suggestion (prototype tree L    *)
(* with decisions v) into the code they want (target tree M).                *)
(*                                                                           *)
(* pr = [hm, hd, lm, ld, ins, reg, hs, ls]: utility of keeping and cost of   *)
(* deleting a character at high / low confidence, cost of inserting one, of  *)
(* each region, and of starting an edit at high / low confidence.            *)
(***************************************************************************)
EXTENDS Regions
INF == 1000000
MinSet(S) == IF S = {} THEN INF ELSE CHOOSE x \in S : \A y \in S : x <= y
MinI(a, b) == IF a <= b THEN a ELSE b
Plus(a, b) == IF a >= INF \/ b >= INF THEN INF ELSE a + b
Editable(k) == k \in {"TOK", "GRP"}

\* Is the place just before node x inside a region?
Low(L, v, x) == \E s \in 1..(x - 1) : /\ L[s].k = "RS" /\ v[s] = T
                  /\ \A e \in (s + 1)..(x - 1) : ~(L[e].k = "RE" /\ v[e] = T)
\* Decisions that say consistently where regions are (they may cross groups).
Consistent(L, v) ==
  LET X == ExitOf(L, v) IN
  /\ \A x \in DOMAIN L :
       IF x > X \/ L[x].k = "DEC" THEN v[x] = NA
       ELSE CASE L[x].k = "RS" -> IF Low(L, v, x) THEN v[x] = NA ELSE v[x] \in {F, T}
              [] L[x].k = "RE" -> IF Low(L, v, x) THEN v[x] \in {F, T} ELSE v[x] = NA
              [] L[x].k = "EE" -> v[x] \in {F, T}
              [] OTHER -> v[x] = IF Low(L, v, x) THEN T ELSE F
  /\ Exited(L, v) \/ ~Low(L, v, Len(L) + 1)

Kids(L, x) == SelectSeq([j \in 1..Len(L) |-> j], LAMBDA j : L[j].parent = x - 1)
RECURSIVE SumF(_, _)
SumF(f(_), S) == IF S = {} THEN 0
                 ELSE LET x == CHOOSE y \in S : TRUE IN f(x) + SumF(f, S \ {x})
StartCost(pr, low) == IF low THEN pr.ls ELSE pr.hs
DelTok(L, v, pr, x) == Len(L[x].txt) * (IF Low(L, v, x) THEN pr.ld ELSE pr.hd)
KeepTok(L, v, pr, x) == -(Len(L[x].txt) * (IF Low(L, v, x) THEN pr.lm ELSE pr.hm))
InsTok(M, pr, y) == Len(M[y].txt) * pr.ins
\* Deleting node x with everything below it (up to the exit), inserting y.
Del(L, v, pr, x) ==
  SumF(LAMBDA z : DelTok(L, v, pr, z),
       {z \in x..MinI(LastBelow(L, x), ExitOf(L, v) - 1) : L[z].k = "TOK"})
Ins(M, pr, y) == SumF(LAMBDA z : InsTok(M, pr, z), {z \in y..LastBelow(M, y) : M[z].k = "TOK"})

(* Everything about a tree that does not depend on the alignment, worked out    *)
(* once, in one pass each (entry x + 1 of last and kids is about node x; node   *)
(* 0 is the root).                                                              *)
RECURSIVE LowFrom(_, _, _, _)
LowFrom(L, v, x, low) == <<low>> \o
  IF x > Len(L) THEN <<>>
  ELSE LowFrom(L, v, x + 1, IF L[x].k = "RS" /\ v[x] = T THEN TRUE
                            ELSE IF L[x].k = "RE" /\ v[x] = T THEN FALSE ELSE low)
RECURSIVE LastFrom(_, _, _)
LastFrom(L, x, z) == IF z > Len(L) \/ L[z].parent < x - 1 THEN z - 1 ELSE LastFrom(L, x, z + 1)
RECURSIVE Sums(_, _, _)
Sums(f(_), k, n) == IF n < k THEN <<>>       \* running sums of f over k..n
  ELSE LET s == TLCEval(Sums(f, k, n - 1)) IN
       Append(s, f(n) + IF s = <<>> THEN 0 ELSE s[Len(s)])
Ahead(L, v, pr) ==
  LET n == Len(L)  X == ExitOf(L, v)
      low == TLCEval(LowFrom(L, v, 1, FALSE))
      last == TLCEval([x \in 1..(n + 1) |-> IF x = 1 THEN n ELSE LastFrom(L, x - 1, x)])
      tok(x) == IF L[x].k = "TOK" /\ x < X THEN Len(L[x].txt) * (IF low[x] THEN pr.ld ELSE pr.hd) ELSE 0
      cum == TLCEval(Sums(tok, 1, n)) IN
  TLCEval([X |-> X, low |-> low, last |-> last,
   kids |-> TLCEval([x \in 1..(n + 1) |-> Kids(L, x - 1)]),
   start |-> TLCEval([x \in 1..(n + 1) |-> StartCost(pr, low[x])]),
   \* deleting node x with everything below it up to the exit
   del |-> TLCEval([x \in 1..n |-> cum[last[x + 1]] - IF x = 1 THEN 0 ELSE cum[x - 1]]),
   keep |-> TLCEval([x \in 1..n |-> -(Len(L[x].txt) * (IF low[x] THEN pr.lm ELSE pr.hm))])])
\* ... which is what the definitions say.
AheadIsRight(L, v, pr) == LET A == Ahead(L, v, pr) IN
  /\ \A x \in 1..(Len(L) + 1) : A.low[x] = Low(L, v, x) /\ A.last[x] = LastBelow(L, x - 1)
  /\ \A x \in DOMAIN L : A.del[x] = Del(L, v, pr, x) /\ A.keep[x] = KeepTok(L, v, pr, x)
AheadT(M, pr) == TLCEval(
  [kids |-> TLCEval([y \in 1..(Len(M) + 1) |-> Kids(M, y - 1)]),
   ins |-> TLCEval([y \in 1..Len(M) |-> Ins(M, pr, y)])])

(* The best alignment of the children of prototype node x with those of target *)
(* node y (0: the roots).  Matched nodes split both sequences into gaps; what  *)
(* lies in a gap is deleted / inserted, as one edit started somewhere in the   *)
(* gap before its first deletion.  An exit in the prototype ends everything.   *)
RECURSIVE Best(_, _, _, _, _, _)
Best(L, A, M, B, x, y) ==
  LET X == A.X
      ps == A.kids[x + 1]
      ts == B.kids[y + 1]
      np == Len(ps)
      nt == Len(ts)
      endp == A.last[x + 1] + 1
      at(i) == IF i > np THEN endp ELSE ps[i]     \* the place before the i-th child
      spans(i) == ps[i] <= X /\ X <= A.last[ps[i] + 1]
      exitAt == {e \in 1..np : spans(e)}
      lim == IF exitAt = {} THEN np ELSE MinSet(exitAt)
      firstDel(i, i2) == LET S == {k \in i..(i2 - 1) : Editable(L[ps[k]].k)}
                         IN IF S = {} THEN i2 ELSE MinSet(S)
      start(i, i2) == MinSet({A.start[at(k)] : k \in i..firstDel(i, i2)})
      dels(i, i2) == SumF(LAMBDA k : A.del[ps[k]],
                          {k \in i..(i2 - 1) : Editable(L[ps[k]].k)})
      inss(j, j2) == SumF(LAMBDA k : B.ins[ts[k]],
                          {k \in j..(j2 - 1) : Editable(M[ts[k]].k)})
      anyDel(i, i2) == firstDel(i, i2) < i2
      \* what happens between two matched children, by what it deletes / inserts
      pgap == TLCEval([i \in 1..(np + 1) |-> TLCEval([i2 \in i..(np + 1) |->
                 [c |-> dels(i, i2), s |-> start(i, i2), any |-> anyDel(i, i2)]])])
      tgap == TLCEval([j \in 1..(nt + 1) |-> TLCEval([j2 \in j..(nt + 1) |->
                 [c |-> inss(j, j2), any |-> \E k \in j..(j2 - 1) : Editable(M[ts[k]].k)]])])
      gap(i, i2, j, j2) == LET a == pgap[i][i2]  b == tgap[j][j2] IN
                           a.c + b.c + IF a.any \/ b.any THEN a.s ELSE 0
      \* the exit is reached while deleting from i on; it is (in) the e-th child
      leave(i, e) == LET a == pgap[i][e + 1] IN a.c + IF a.any THEN a.s ELSE 0
      fits(i, j) == LET a == L[ps[i]]  b == M[ts[j]] IN
                    Editable(a.k) /\ a.k = b.k /\ a.ty = b.ty /\ (a.k = "TOK" => a.txt = b.txt)
      match == TLCEval([i \in 1..lim |-> TLCEval([j \in {b \in 1..nt : fits(i, b)} |->
                 IF L[ps[i]].k = "TOK" THEN A.keep[ps[i]] ELSE Best(L, A, M, B, ps[i], ts[j])])])
      \* go(i)[1][j]: the best from child i of x and child j of y on; go(i)[1 + k]: from i + k on
      RECURSIVE go(_)
      go(i) ==
        LET later == IF i > lim THEN <<>> ELSE TLCEval(go(i + 1))
            stop(j) == IF exitAt = {} THEN {gap(i, np + 1, j, nt + 1)}
                       ELSE {leave(i, e) : e \in {e \in exitAt : e >= i}}
            more(j) == UNION {
              { LET c == gap(i, i2, j, j2) + match[i2][j2] IN
                IF exitAt # {} /\ i2 = lim THEN c ELSE c + later[i2 + 1 - i][j2 + 1] :
                j2 \in {b \in DOMAIN match[i2] : b >= j} } : i2 \in i..lim }
        IN << TLCEval([j \in 1..(nt + 1) |-> MinSet(stop(j) \cup more(j))]) >> \o later
  IN go(1)[1][1]
RegionCost(L, v, pr) ==
  pr.reg * Cardinality({x \in DOMAIN L : L[x].k = "RS" /\ v[x] = T /\ x < ExitOf(L, v)})
EditCost(L, v, M, pr) == IF Consistent(L, v)
                         THEN Best(L, Ahead(L, v, pr), M, AheadT(M, pr), 0, 0) + RegionCost(L, v, pr) ELSE INF
=============================================================================
