-------------------------------- MODULE MCAp --------------------------------
(* Message passing over the groups yields clusters around exemplars and    *)
(* keeps must-linked items together, in every state of knowledge           *)
EXTENDS AffinityPropagation, Scenarios
CONSTANTS Places, Conv, MaxIt
VARIABLES k, vec, conv, aml, lab
vars == <<k, vec, conv, aml, lab>>
Init == /\ k \in AllKnowledge
        /\ \E p \in [Items -> Places] : (\A x, y \in Items : x # y => p[x] # p[y]) /\ vec = [x \in Items |-> <<p[x]>>]
        /\ conv \in Conv /\ aml \in BOOLEAN
        /\ lab = <<>>
Dist == [x, y \in Items |-> 1024 * (IF vec[x][1] > vec[y][1] THEN vec[x][1] - vec[y][1] ELSE vec[y][1] - vec[x][1])]
Next == lab = <<>> /\ lab' = ApRun(k, Dist, aml, conv, MaxIt) /\ UNCHANGED <<k, vec, conv, aml>>
Spec == Init /\ [][Next]_vars
Done == lab # <<>>
MustLinks == (Done /\ aml) => RespectsML(k, lab)
Around == (Done /\ aml) => Exemplary(k, vec, Blocks(Items, lab))
=============================================================================
