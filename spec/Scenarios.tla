----------------------------- MODULE Scenarios ------------------------------
(* Every state of knowledge a manager of N items can be in: a partition    *)
(* into must-link groups and a conflict graph between the groups.          *)
EXTENDS Constraints, Json, TLC
CONSTANT N
Items == 1 .. N
GroupMaps == {f \in [Items -> Items] : \A x \in Items : f[x] <= x /\ f[f[x]] = f[x]}
Sym(S) == S \cup {<<p[2], p[1]>> : p \in S}
ConflictSets(f) == LET R == {f[x] : x \in Items} IN SUBSET {p \in R \X R : p[1] < p[2]}
AllKnowledge == UNION {{[rep |-> f, clash |-> Sym(S)] : S \in ConflictSets(f)} : f \in GroupMaps}
=============================================================================
