---------------------------- MODULE MCSampling -----------------------------
(* Every consistent annotation set on N items, every clustering of them:   *)
(* the eligible pairs under every option, emitted for replay into the      *)
(* sampler; and what annotating a sampled pair can lead to.                *)
EXTENDS Sampling, Json, TLC
CONSTANT N
VARIABLES A, lab
vars == <<A, lab>>
I == 1 .. N
PairsOf == {p \in I \X I : p[1] < p[2]}
Labellings == {f \in [I -> 0 .. (N - 1)] : Canonical(I, f)}
k == Know(I, A)
(* annotation sets are grown one accepted annotation at a time *)
Annotate(x, y, t) == /\ x < y /\ Added(A, x, y) = NONE
                     /\ Inf(k, x, y) # Opp(t)
                     /\ A' = A \cup {<<x, y, t>>}
                     /\ lab' = lab
Init == A = {} /\ lab \in Labellings
Next == \E x, y \in I : \E t \in Types : Annotate(x, y, t)
Spec == Init /\ [][Next]_vars
E(restr, wa, wi) == Eligible(k, A, lab, restr, wa, wi)
(* an eligible pair (default options) accepts either annotation            *)
EitherAnswer == \A p \in E(AnyCluster, TRUE, TRUE) : \A t \in Types :
                   Satisfiable(A \cup {<<p[1], p[2], t>>})
(* nothing left to ask exactly when everything is known                    *)
NothingLeft == (E(AnyCluster, TRUE, TRUE) = {}) <=> Complete(k)
(* the two restrictions split the eligible pairs; options only restrict    *)
Split == \A wa, wi \in BOOLEAN :
            /\ E(SameCluster, wa, wi) \cap E(DifferentClusters, wa, wi) = {}
            /\ E(SameCluster, wa, wi) \cup E(DifferentClusters, wa, wi) = E(AnyCluster, wa, wi)
Monotone == \A r \in 0 .. 2 : /\ E(r, TRUE, TRUE) \subseteq E(r, TRUE, FALSE)
                              /\ E(r, TRUE, TRUE) \subseteq E(r, FALSE, TRUE)
                              /\ E(r, FALSE, FALSE) = {p \in PairsOf : (r = 0) \/ ((r = 1) <=> lab[p[1]] = lab[p[2]])}
Emit == PrintT("E" \o ToJson([A |-> SetToSeq(A), lab |-> lab,
          e |-> [r \in 1 .. 3 |-> [o \in 1 .. 4 |-> SetToSeq(E(r - 1, o <= 2, o % 2 = 1))]]]))
=============================================================================
