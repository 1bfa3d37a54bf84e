----------------------------- MODULE EditMachine -----------------------------
(***************************************************************************)
(* The user editing step by step.  Both trees are read left to right (groups *)
(* have an opening and a closing item).  s =                                 *)
(*   [p, t      positions in the item sequences of prototype and target,     *)
(*    mode      "read" | "del" | "ins" | "match",                            *)
(*    stack     kinds of the groups being inside of: M(atched) D(eleted)     *)
(*              I(nserted),                                                  *)
(*    cost, done]                                                            *)
(* Each step may show an event <<action, prototype node, target node,        *)
(* confidence, cost>>; nodes are preorder indices, -1 for none.              *)
(***************************************************************************)
EXTENDS Edit
Start == [p |-> 1, t |-> 1, mode |-> "read", stack |-> <<>>, cost |-> 0, done |-> FALSE]
Silent == <<>>
Top(st) == IF st = <<>> THEN "M" ELSE Last(st)
\* All steps from s: a set of <<event, next state>>.
Steps(L, v, PI, M, TI, pr, s) ==
  LET ip == s.p <= Len(PI)   it == s.t <= Len(TI)
      pc == IF ip THEN PI[s.p][1] ELSE "END"
      tc == IF it THEN TI[s.t][1] ELSE "END"
      x == IF ip THEN PI[s.p][2] + 1 ELSE Len(L) + 1
      y == IF it THEN TI[s.t][2] + 1 ELSE Len(M) + 1
      pk == IF ip THEN L[x].k ELSE "END"
      tk == IF it THEN M[y].k ELSE "END"
      here == IF pc = "AFTER_GROUP" THEN LastBelow(L, x) + 1 ELSE x
      low == Low(L, v, here)
      cf == IF low THEN "LOW_CONFIDENCE" ELSE "HIGH_CONFIDENCE"
      pay(q, c) == [q EXCEPT !.cost = @ + c]
      fp(q) == [q EXCEPT !.p = @ + 1]
      ft(q) == [q EXCEPT !.t = @ + 1]
      push(q, k) == [q EXCEPT !.stack = Append(@, k)]
      pop(q) == [q EXCEPT !.stack = Front(@)]
      md(q, m) == [q EXCEPT !.mode = m]
      reading == s.mode \in {"read", "del"}
      ok == pc \in {"LEAF", "BEFORE_GROUP"} /\ (
              CASE pk = "RS" -> IF low THEN v[x] = NA ELSE v[x] \in {F, T}
                [] pk = "RE" -> IF low THEN v[x] \in {F, T} ELSE v[x] = NA
                [] pk = "EE" -> v[x] \in {F, T}
                [] pk = "DEC" -> TRUE
                [] OTHER -> v[x] = IF low THEN T ELSE F)
  IN IF s.done THEN {} ELSE
     \* go past decorations and decision points of the prototype
     (IF reading /\ ok /\ pk = "DEC"
      THEN {<< <<"PROTOTYPE_DECORATION", x - 1, -1, cf, 0>>, fp(s)>>} ELSE {})
     \cup (IF reading /\ ok /\ pk = "RS" /\ v[x] = T
           THEN {<< <<"START_LOW_CONFIDENCE", x - 1, -1, "NOT_APPLICABLE", pr.reg>>,
                    pay(fp(s), pr.reg)>>} ELSE {})
     \cup (IF reading /\ ok /\ (pk = "RE" \/ (pk \in {"RS", "EE"} /\ v[x] # T))
           THEN {<<Silent, fp(s)>>} ELSE {})
     \cup (IF reading /\ ok /\ pk = "EE" /\ v[x] = T /\ (\A z \in (x + 1)..Len(L) : v[z] = NA)
           THEN {<< <<"EARLY_EXIT", x - 1, -1, cf, 0>>, [s EXCEPT !.done = TRUE]>>} ELSE {})
     \* begin an edit
     \cup (IF s.mode = "read"
           THEN {<< <<"START_EDITING", -1, -1, cf, StartCost(pr, low)>>,
                    pay(md(s, "del"), StartCost(pr, low))>>, <<Silent, md(s, "match")>>} ELSE {})
     \* delete
     \cup (IF s.mode = "del" /\ ok /\ pk = "TOK"
           THEN LET c == DelTok(L, v, pr, x) IN
                {<< <<"DELETE", x - 1, -1, cf, c>>, pay(fp(s), c)>>} ELSE {})
     \cup (IF s.mode = "del" /\ ok /\ pc = "BEFORE_GROUP"
           THEN {<<Silent, push(fp(s), "D")>>} ELSE {})
     \cup (IF s.mode = "del" /\ pc = "AFTER_GROUP" /\ Top(s.stack) = "D"
           THEN {<<Silent, pop(fp(s))>>} ELSE {})
     \cup (IF s.mode = "del" /\ Top(s.stack) # "D" THEN {<<Silent, md(s, "ins")>>} ELSE {})
     \* insert
     \cup (IF s.mode \in {"ins", "match"} /\ tk = "DEC"
           THEN {<< <<"TARGET_DECORATION", -1, y - 1, cf, 0>>, ft(s)>>} ELSE {})
     \cup (IF s.mode = "ins" /\ tk = "TOK"
           THEN LET c == InsTok(M, pr, y) IN
                {<< <<"INSERT", -1, y - 1, "NOT_APPLICABLE", c>>, pay(ft(s), c)>>} ELSE {})
     \cup (IF s.mode = "ins" /\ tc = "BEFORE_GROUP" THEN {<<Silent, push(ft(s), "I")>>} ELSE {})
     \cup (IF s.mode = "ins" /\ tc = "AFTER_GROUP" /\ Top(s.stack) = "I"
           THEN {<<Silent, pop(ft(s))>>} ELSE {})
     \cup (IF s.mode = "ins" /\ Top(s.stack) # "I" THEN {<<Silent, md(s, "match")>>} ELSE {})
     \* keep
     \cup (IF s.mode = "match" /\ ok /\ pk = "TOK" /\ tk = "TOK"
           THEN IF L[x].txt = M[y].txt /\ L[x].ty = M[y].ty
                THEN LET c == KeepTok(L, v, pr, x) IN
                     {<< <<"KEEP", x - 1, y - 1, cf, c>>, pay(md(ft(fp(s)), "read"), c)>>}
                ELSE {} ELSE {})
     \cup (IF s.mode = "match" /\ ok /\ pc = "BEFORE_GROUP" /\ tc = "BEFORE_GROUP"
           THEN IF L[x].ty = M[y].ty
                THEN {<<Silent, push(md(ft(fp(s)), "read"), "M")>>} ELSE {} ELSE {})
     \cup (IF s.mode = "match" /\ pc = "AFTER_GROUP" /\ tc = "AFTER_GROUP" /\ Top(s.stack) = "M"
           THEN {<<Silent, pop(md(ft(fp(s)), "read"))>>} ELSE {})
     \* done
     \cup (IF s.mode = "match" /\ ~ip /\ ~it /\ ~low /\ s.stack = <<>>
           THEN {<<Silent, [s EXCEPT !.done = TRUE]>>} ELSE {})
=============================================================================
