----------------------------- MODULE Trace_Solver -----------------------------
(* Histories of operations on real systems of diagrams.  The state is the       *)
(* recorded penalties and unary costs of every system (originals and clones);    *)
(* each recorded step must be a step the specification allows.                   *)
(* Numbers are in units of 1/1024.                                               *)
EXTENDS Solver, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
U == 1024
TOL == 24
VARIABLES ci, pc, st, why
vars == <<ci, pc, st, why>>
C == Cases[ci]
Verdict(w) == IF w = "" THEN PrintT(<<"OK", C.id>>) ELSE PrintT(<<"BAD", C.id, w>>)

KsOf(d) == SortedSeq(Keys(d.edges))
Ks(c) == SortedSeq(UNION {Keys(c.in.dags[j].edges) : j \in DOMAIN c.in.dags})
Vs(c) == c.in.order
NK(c) == Len(Ks(c))
NV(c) == Len(Vs(c))
Diagrams(c) ==
  [j \in DOMAIN c.in.dags |->
     LET d == c.in.dags[j] IN
     {[s EXCEPT !.cost = @ * U] : s \in Summaries(d.edges, d.init, d.final, KsOf(d), Vs(c), c.in.missing)}]
Imap(c) == [k \in 1..NK(c) |-> [j \in DOMAIN c.in.dags |->
              LET ks == KsOf(c.in.dags[j]) IN
              IF Contains(ks, Ks(c)[k]) THEN IndexIn(ks, Ks(c)[k]) ELSE 0]]
Fresh(c) == [pens |-> [j \in DOMAIN c.in.dags |->
                 [k \in 1..Len(KsOf(c.in.dags[j])) |-> [v \in 1..NV(c) |-> 0]]],
             extra |-> [k \in 1..NK(c) |-> [v \in 1..NV(c) |-> 0]]]
W(c) == IF c.in.weights = <<>> THEN [j \in DOMAIN c.in.dags |-> 1] ELSE c.in.weights

(* choices that no finite joint solution makes                                   *)
Alive(J, extra) == {<<k, j.x[k]>> : k \in DOMAIN extra, j \in {y \in J : Add(y.c, Unary(extra, y.x)) < INF}}
Joint(D, im, nk, nv) == {[x |-> x, c |-> CostOf(D, im, x)] : x \in [1..nk -> 1..nv]}
Opt(J, extra) == MinOf({Add(j.c, Unary(extra, j.x)) : j \in J})
Unbalanced(D, im, s, J) ==
  LET al == Alive(J, s.extra) IN
  \E k \in DOMAIN s.extra : \E v \in DOMAIN s.extra[k] :
     LET t == PenTotal(D, s.pens, im, k, v) IN
     IF t >= INF THEN <<k, v>> \in al
     ELSE ~Near(t, s.extra[k][v], TOL)
SameExcept(D, im, k, s, t) ==
  \A j \in DOMAIN D : \A i \in DOMAIN s.pens[j] :
     (im[k][j] # i) => s.pens[j][i] = t.pens[j][i]

AvgClause(c, op, r, s, t) ==
  LET D == Diagrams(c)  im == Imap(c)  nv == NV(c)  k == op.k + 1
      J == Joint(D, im, NK(c), nv)
      z == [j \in DOMAIN D |-> IF im[k][j] = 0 THEN s.pens[j]
                               ELSE [s.pens[j] EXCEPT ![im[k][j]] = [v \in 1..nv |-> 0]]]
      parts == {j \in DOMAIN D : im[k][j] > 0}
      tot == [v \in 1..nv |-> Add(s.extra[k][v],
                SumSat([j \in DOMAIN D |-> IF j \in parts THEN Marginal(D[j], z[j], im[k][j], nv)[v] ELSE 0]))]
      wt == SumSeq([j \in DOMAIN D |-> IF j \in parts THEN W(c)[j] ELSE 0]) IN
  IF t.extra # s.extra THEN "unary costs changed"
  ELSE IF ~SameExcept(D, im, k, s, t) THEN "penalties of another variable changed"
  ELSE IF Unbalanced(D, im, t, J) THEN "penalties no longer add up to the unary costs"
  ELSE IF ~Near(r, Bound(D, t.pens), TOL) THEN "reported bound is not the dual value"
  ELSE IF ~AtMost(r, Opt(J, t.extra), TOL) THEN "bound above the optimum"
  ELSE IF ~AtMost(Bound(D, s.pens), r, TOL) THEN "bound decreased"
  ELSE IF \E j \in parts : \E v \in 1..nv :
          LET a == Marginal(D[j], t.pens[j], im[k][j], nv)[v] IN
          IF tot[v] >= INF THEN a < INF
          ELSE a >= INF \/ Abs(a * wt - tot[v] * W(c)[j]) > TOL * wt
       THEN "marginals not shared by weight"
  ELSE ""

SweepClause(c, op, r, s, t) ==
  LET D == Diagrams(c)  im == Imap(c)  nk == NK(c)
      J == Joint(D, im, nk, NV(c))  opt == Opt(J, t.extra)
      n == Len(r.steps)  ns == Len(r.sweeps)
      first(i) == IF i = 1 THEN 1 ELSE r.sweepsteps[i - 1] + 1
      improved(i) == \E x \in first(i)..r.sweepsteps[i] : r.diff[x] > 11
      maybe(i) == \E x \in first(i)..r.sweepsteps[i] : r.diff[x] > 9
      (* sweeps come in rounds of two *)
      round(i) == {x \in 1..ns : (x + 1) \div 2 = (i + 1) \div 2} IN
  IF t.extra # s.extra THEN "unary costs changed"
  ELSE IF Unbalanced(D, im, t, J) THEN "penalties no longer add up to the unary costs"
  ELSE IF ns = 0 THEN "no sweep"
  ELSE IF Len(r.sweepsteps) # ns \/ Len(r.late) # ns \/ Len(r.vars) # n THEN "sizes of the reports"
  ELSE IF \E i \in 1..(ns - 1) : r.sweepsteps[i] > r.sweepsteps[i + 1] THEN "cumulative step counts"
  ELSE IF r.sweepsteps[ns] # n THEN "cumulative step counts"
  ELSE IF \E i \in 1..n : ~AtMost(r.steps[i], opt, TOL) THEN "bound above the optimum"
  ELSE IF \E i \in 1..(n - 1) : ~AtMost(r.steps[i], r.steps[i + 1], TOL) THEN "bound decreased"
  ELSE IF n > 0 /\ ~AtMost(Bound(D, s.pens), r.steps[1], TOL) THEN "bound decreased"
  ELSE IF n > 0 /\ ~Near(r.steps[n], Bound(D, t.pens), TOL) THEN "reported bound is not the dual value"
  ELSE IF \E i \in 1..ns : r.sweepsteps[i] > 0 /\ r.sweeps[i] # r.steps[r.sweepsteps[i]] THEN "sweep summary"
  ELSE IF \E i \in 1..(ns - 1) : r.late[i] THEN "kept sweeping after the timeout"
  ELSE IF ~r.late[ns] /\ ~r.plateau THEN "stopped without convergence or timeout"
  ELSE IF r.plateau /\ (\E i \in round(ns) : improved(i)) THEN "claims a plateau while improving"
  ELSE IF \E i \in 1..ns : round(i) # round(ns) /\ \A x \in round(i) : ~maybe(x) THEN "missed a plateau"
  ELSE IF nk >= 2 /\ \E i \in 1..ns : i % 2 = 0 /\
          {r.vars[x] : x \in first(i - 1)..r.sweepsteps[i]} # 0..(nk - 1)
       THEN "a pair of sweeps left out a variable"
  ELSE ""

GreedyClause(c, op, r, s) ==
  LET D == Diagrams(c)  im == Imap(c)  nk == NK(c)  nv == NV(c)
      x == [k \in 1..nk |-> r.a[k] + 1]
      order == IF op.dir = 0 THEN [i \in 1..nk |-> i] ELSE [i \in 1..nk |-> nk + 1 - i]
      RECURSIVE bad(_, _)
      bad(i, p) == IF i > nk THEN FALSE
        ELSE LET k == order[i]
                 mm == SysMarg(D, p, im, k, nv)
                 p2 == [j \in DOMAIN D |-> IF im[k][j] = 0 THEN p[j]
                         ELSE [p[j] EXCEPT ![im[k][j]] = [v \in 1..nv |-> IF v = x[k] THEN @[v] ELSE INF]]]
             IN ~AtMost(mm[x[k]], MinOf({mm[v] : v \in 1..nv}), TOL) \/ bad(i + 1, p2) IN
  IF Len(r.a) # nk \/ \E k \in 1..nk : r.a[k] \notin 0..(nv - 1) THEN "not a decision vector"
  ELSE IF ~Near(r.cost, PenCostOf(D, s.pens, im, x), TOL) THEN "reported cost under the penalties"
  ELSE IF ~Near(r.cost, Add(CostOf(D, im, x), Unary(s.extra, x)), TOL) THEN "reported cost is not the true cost"
  ELSE IF ~AtMost(Bound(D, s.pens), r.cost, TOL) THEN "decoded cost below the bound"
  ELSE IF bad(1, s.pens) THEN "not a greedy decision"
  ELSE IF r.named # [k \in 1..nk |-> <<Ks(c)[k], Vs(c)[x[k]]>>] THEN "named decisions"
  ELSE ""

CommitClause(c, op, r, s, t) ==
  LET D == Diagrams(c)  im == Imap(c)  nk == NK(c)  nv == NV(c)
      forb == {q \in (1..nk) \X (1..nv) : t.extra[q[1]][q[2]] >= INF /\ s.extra[q[1]][q[2]] < INF} IN
  IF \E k \in 1..nk, v \in 1..nv : <<k, v>> \notin forb /\ t.extra[k][v] # s.extra[k][v] THEN "unary costs changed"
  ELSE IF \E j \in DOMAIN D : \E k \in 1..nk : im[k][j] > 0 /\ \E v \in 1..nv :
          IF <<k, v>> \in forb THEN t.pens[j][im[k][j]][v] < INF
          ELSE /\ t.pens[j][im[k][j]][v] # s.pens[j][im[k][j]][v]
               (* a choice that was impossible already may be forbidden again *)
               /\ ~(t.pens[j][im[k][j]][v] >= INF /\ s.extra[k][v] >= INF)
       THEN "penalties changed beyond the forbidden choices"
  ELSE IF r.status = "NEEDS_GREEDY_EXTRACT" /\ t # s THEN "changed although greedy decoding is needed"
  ELSE IF r.status = "MADE_PARTIAL_ASSIGNMENT" /\ forb = {} THEN "claims progress"
  ELSE IF r.status = "STUCK" /\ forb \cap Alive(Joint(D, im, nk, nv), s.extra) # {} THEN "denies progress"
  ELSE IF r.status \notin {"NEEDS_GREEDY_EXTRACT", "MADE_PARTIAL_ASSIGNMENT", "STUCK"} THEN "status"
  ELSE IF Bound(D, s.pens) < INF /\ Bound(D, t.pens) >= INF THEN "committed to an infeasible choice"
  ELSE ""

ConsClause(c, op, s, t) ==
  LET D == Diagrams(c)  im == Imap(c)  J == Joint(D, im, NK(c), NV(c))
      p == op.pen
      want == [k \in 1..NK(c) |-> [v \in 1..NV(c) |->
          LET I == {i \in DOMAIN op.cons : op.cons[i][1] = Ks(c)[k]} IN
          IF I = {} THEN s.extra[k][v]
          ELSE Add(s.extra[k][v], IF Vs(c)[v] = op.cons[MinOf(I)][2] THEN 0 ELSE p)]] IN
  IF t.extra # want THEN "unary costs after constraining"
  ELSE IF Unbalanced(D, im, t, J) THEN "penalties do not add up to the unary costs"
  ELSE ""
NoiseClause(c, op, r, s, t) ==
  LET D == Diagrams(c)  im == Imap(c)  J == Joint(D, im, NK(c), NV(c)) IN
  IF \E k \in 1..NK(c) : \E v \in 1..NV(c) :
       IF s.extra[k][v] >= INF THEN t.extra[k][v] < INF
       ELSE t.extra[k][v] < s.extra[k][v] - 1 \/ t.extra[k][v] > s.extra[k][v] + op.scale * U + 1
  THEN "noise outside its range"
  ELSE IF Unbalanced(D, im, t, J) THEN "penalties do not add up to the unary costs"
  ELSE IF ~r.same THEN "same seed, different noise"
  ELSE ""
MargClause(c, op, r, s) ==
  LET D == Diagrams(c)  m == SysMarg(D, s.pens, Imap(c), op.k + 1, NV(c)) IN
  IF \E v \in 1..NV(c) : ~Near(r[v], m[v], TOL) THEN "aggregated marginals" ELSE ""

Clause(c, op, r, s, t) ==
  IF op.op \in {"clone", "greedy", "marg"} /\ t # s THEN op.op \o " changed the system"
  ELSE IF op.op = "avg" THEN AvgClause(c, op, r, s, t)
  ELSE IF op.op = "sweep" THEN SweepClause(c, op, r, s, t)
  ELSE IF op.op = "greedy" THEN GreedyClause(c, op, r, s)
  ELSE IF op.op = "commit" THEN CommitClause(c, op, r, s, t)
  ELSE IF op.op = "constrain" THEN ConsClause(c, op, s, t)
  ELSE IF op.op = "noise" THEN NoiseClause(c, op, r, s, t)
  ELSE IF op.op = "marg" THEN MargClause(c, op, r, s)
  ELSE ""
Start(c) ==
  IF ~c.in.agree THEN (IF "exc" \in DOMAIN c.out /\ c.out.exc = "ValueError" THEN "fine"
                       ELSE "diagrams with different values accepted")
  ELSE IF "exc" \in DOMAIN c.out THEN "raised " \o c.out.exc
  ELSE IF c.out.keys # Ks(c) THEN "keys of the system"
  ELSE IF c.out.imap # [k \in 1..NK(c) |-> [j \in DOMAIN c.in.dags |-> Imap(c)[k][j] - 1]] THEN "index map"
  ELSE IF c.out.init # Fresh(c) THEN "a fresh system has no penalties"
  ELSE ""
TInit == /\ \E k \in 1..Len(Cases) : ci = k
         /\ pc = 1
         /\ why = Start(Cases[ci])
         /\ st = IF why = "" THEN <<Fresh(Cases[ci])>> ELSE <<>>
TNext ==
  /\ pc > 0
  /\ IF why # "" \/ pc > Len(C.in.ops)
     THEN Verdict(IF why = "fine" THEN "" ELSE why) /\ pc' = 0 /\ UNCHANGED <<st, why>>
     ELSE LET op == C.in.ops[pc]  o == C.out.ans[pc]
              ns == IF op.op = "clone" THEN Append(st, st[op.m + 1]) ELSE st IN
          /\ pc' = pc + 1
          /\ st' = o.sys
          /\ why' = IF Len(o.sys) # Len(ns) THEN "number of systems"
                    ELSE IF \E i \in DOMAIN ns : i # op.m + 1 /\ ns[i] # o.sys[i]
                         THEN "another system was affected by " \o op.op
                    ELSE Clause(C, op, o.ret, st[op.m + 1], o.sys[op.m + 1])
  /\ UNCHANGED ci
TSpec == TInit /\ [][TNext]_vars
=============================================================================
