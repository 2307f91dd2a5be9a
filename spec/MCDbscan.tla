------------------------------ MODULE MCDbscan ------------------------------
(***************************************************************************)
(* The implementation's order of DBSCAN satisfies C14, C16 and C26 in      *)
(* every state of knowledge, on a family of positions, listed in any order *)
(***************************************************************************)
EXTENDS CDbscan, Scenarios
CONSTANTS Span, MaxMS, AllOrders
VARIABLES k, vec, ms, size, order, lab
vars == <<k, vec, ms, size, order, lab>>
Orders == IF AllOrders THEN {s \in [1 .. N -> Items] : \A i, j \in 1 .. N : i # j => s[i] # s[j]}
          ELSE {[i \in 1 .. N |-> i], [i \in 1 .. N |-> N + 1 - i]}
Init == /\ k \in AllKnowledge
        /\ \E p \in [Items -> 0 .. Span] : p[1] = 0 /\ vec = [x \in Items |-> <<p[x]>>]
        /\ ms \in 1 .. MaxMS /\ size \in {1, 2} /\ order \in Orders
        /\ lab = <<>>
Next == lab = <<>> /\ lab' = DbscanRun(k, order, vec, 1, size, ms) /\ UNCHANGED <<k, vec, ms, size, order>>
Spec == Init /\ [][Next]_vars
Done == lab # <<>>
LabelsOK == Done => NoiseOK(Items, lab) /\ RegularOK(Items, lab)
Respects == Done => RespectsCL(k, lab)
Dense == Done => DensityOK(k, Items, vec, 1, ms, lab)
NoAnnotation == k.clash = {} /\ \A x \in Items : k.rep[x] = x
ReachedOK == (Done /\ NoAnnotation /\ size = 1) => DensityAllOK(Items, vec, 1, ms, lab)
=============================================================================
