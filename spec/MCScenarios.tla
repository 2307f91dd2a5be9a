---------------------------- MODULE MCScenarios -----------------------------
(* Emits every scenario, with an annotation set that leads to it, for      *)
(* replay into the clustering algorithms.                                  *)
EXTENDS Scenarios
VARIABLE k
(* a minimal annotation set: chains inside groups, one per conflict        *)
Anns == {<<k.rep[x], x, ML>> : x \in {y \in Items : k.rep[y] # y}}
        \cup {<<p[1], p[2], CL>> : p \in {q \in k.clash : q[1] < q[2]}}
Init == k \in AllKnowledge
Next == UNCHANGED k
Spec == Init /\ [][Next]_k
Realised == Know(Items, Anns) = k
Emit == PrintT("K" \o ToJson([n |-> N, rep |-> k.rep, A |-> SetToSeq(Anns), groups |-> Cardinality(Groups(k)),
                              chrom |-> ChromaticNumber(k)]))
=============================================================================
