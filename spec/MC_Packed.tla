----------------------------- MODULE MC_Packed -----------------------------
(* Grows trees node by node (insert a node anywhere) and checks the laws.     *)
EXTENDS Packed, IOUtils
MaxNodes == atoi(IOEnv.MAXNODES)
Ls == { <<"TOK", <<97>>, <<"=", "t">>, <<>>>>, <<"DEC", <<32>>, NoTy, <<>>>>, RS,
        <<"GRP", <<>>, <<"=", "g">>, <<>>>> }
VARIABLE t
RECURSIVE Inserts(_, _)
Inserts(s, x) ==   \* all trees obtained from s by inserting the leaf x
  { SubSeq(s, 1, j) \o <<x>> \o SubSeq(s, j + 1, Len(s)) : j \in 0..Len(s) }
  \cup UNION { { [s EXCEPT ![j] = WithCh(s[j], c)] : c \in Inserts(Ch(s[j]), x) } :
                 j \in {m \in 1..Len(s) : K(s[m]) = "GRP"} }
Init == t = <<>>
Next == Size(t) < MaxNodes /\ \E x \in Ls : t' \in Inserts(t, x)
Spec == Init /\ [][Next]_t
Inv == LawIndices(t) /\ LawTraversal(t)
=============================================================================
