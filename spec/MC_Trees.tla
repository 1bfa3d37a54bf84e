------------------------------ MODULE MC_Trees ------------------------------
(* The laws of the transforms, on all trees with at most MaxNodes nodes.    *)
(* The behaviours apply transforms in any order, starting from any tree.    *)
EXTENDS Trees, IOUtils
MaxNodes == atoi(IOEnv.MAXNODES)
Ls == { <<"TOK", <<97>>, <<"=", "t">>, <<>>>>, <<"TOK", <<10>>, <<"=", "t">>, <<>>>>,
        <<"DEC", <<32, 32>>, NoTy, <<>>>>, EE }
Start == UNION {TreesOf(n, Ls, {<<"=", "g">>, <<"=", "MATCH_INNER">>}) : n \in 0..MaxNodes}
VARIABLES orig, cur, done, exits
vars == <<orig, cur, done, exits>>
Init == orig \in Start /\ cur = orig /\ done = <<>> /\ exits = FALSE
Step(name, t) == /\ Len(done) < 2 /\ cur' = t /\ done' = Append(done, name)
                 /\ UNCHANGED orig
Next == \/ Step("flatten", Flatten(cur)) /\ UNCHANGED exits
        \/ Step("strip", Strip(cur)) /\ UNCHANGED exits
        \/ \E w, s \in BOOLEAN : Step("exit", EarlyExits(cur, w, s)) /\ exits' = TRUE
        \/ \E e \in BOOLEAN, f \in {"all", "pseudo"} :
              Step("regions", RegionOptions(cur, e, f)) /\ UNCHANGED exits
        \/ Step("single", SingleRegions(cur)) /\ UNCHANGED exits
Spec == Init /\ [][Next]_vars
InvText == TreeText(cur) = TreeText(orig)
InvStripInserted ==   \* markers come off again
  /\ done \in {<<"exit">>, <<"regions">>, <<"exit", "regions">>, <<"regions", "exit">>}
     => Strip(cur) = Strip(orig)
InvFlat == Flatten(Strip(cur)) = Strip(Flatten(cur))
InvCut == \A off \in 0..Len(TreeText(cur)) :
            TreeText(Cut(cur, off)) = SubSeq(TreeText(cur), off + 1, Len(TreeText(cur)))
InvSingle == TreeText(Singletons(orig)) = TreeText(orig)
             /\ Depth(Singletons(orig)) <= Depth(orig)
InvWalk == Len(Walk(cur, TRUE, FALSE, <<>>)) = Len(Walk(cur, FALSE, TRUE, <<>>))
=============================================================================
