-------------------------------- MODULE Mpc ---------------------------------
(***************************************************************************)
(* MPC-kmeans as a machine: items are taken in any order and placed at the *)
(* lowest cost given what is placed already; empty clusters are filled;    *)
(* the centres move to the means and the next round starts (items on a     *)
(* line, where the metric that is learnt does not matter, or one round).   *)
(***************************************************************************)
EXTENDS MpcKMeans, Scenarios
CONSTANTS Vecs, W2s, Nbs, MaxIt
VARIABLES k, vec, nb, w2, cs, place, it, phase, moved
vars == <<k, vec, nb, w2, cs, place, it, phase, moved>>
Vec(f) == [x \in Items |-> (CASE f = "line" -> <<x * x>>
                              [] f = "even" -> <<2 * x + (x % 2)>>
                              [] f = "plane" -> <<(x * 5) % 7, (x * 3) % 4>>)]
Metric == Ones(Len(vec[1]))
Tab == RoundTable(k, vec, cs, Metric)
Init == /\ k \in AllKnowledge /\ nb \in Nbs /\ w2 \in W2s
        /\ vec \in {Vec(f) : f \in Vecs}
        /\ cs \in FirstCentres(k, vec, nb)
        /\ place = [x \in {} |-> 0] /\ it = 1 /\ phase = "assign" /\ moved = FALSE
Put1(x, j) == [y \in DOMAIN place \cup {x} |-> IF y = x THEN j ELSE place[y]]
Assign == /\ phase = "assign"
          /\ \E tb \in {Tab} :
             \E x \in Items \ DOMAIN place, j \in DOMAIN cs :
                FitsAt(tb, w2, place, DOMAIN place, x, j) /\ place' = Put1(x, j)
          /\ UNCHANGED <<k, vec, nb, w2, cs, it, phase, moved>>
Fill == /\ phase = "assign" /\ DOMAIN place = Items
        /\ \E tb \in {Tab} :
           \E j \in Empties(tb, place), x \in Givable(tb, place) : place' = [place EXCEPT ![x] = j]
        /\ moved' = TRUE
        /\ UNCHANGED <<k, vec, nb, w2, cs, it, phase>>
Finish == /\ phase = "assign" /\ DOMAIN place = Items /\ \A j \in DOMAIN cs : Held(place, j) # {}
          /\ phase' = "placed"
          /\ UNCHANGED <<k, vec, nb, w2, cs, place, it, moved>>
Again == /\ phase = "placed" /\ it < MaxIt /\ Len(vec[1]) = 1
         /\ cs' = [j \in DOMAIN cs |-> Held(place, j)]
         /\ it' = it + 1 /\ place' = [x \in {} |-> 0] /\ phase' = "assign" /\ moved' = FALSE
         /\ UNCHANGED <<k, vec, nb, w2>>
Stop == phase = "placed" /\ (it = MaxIt \/ Len(vec[1]) > 1) /\ UNCHANGED vars     \* any other state has a step
Next == Assign \/ Fill \/ Finish \/ Again \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
----------------------------------------------------------------------------
Now == {Held(place, j) : j \in DOMAIN cs}
(* C32: the machine's rounds satisfy the relation that judges the traces   *)
StepsOK == phase = "placed" => MpcStep(k, vec, cs, Metric, w2, Now)
(* C18: as many clusters as requested *)
CountOK == phase = "placed" => Cardinality(Now \ {{}}) = nb
(* what the weight is for: a heavy one keeps must-linked items together    *)
(* when nothing pushes them apart, a null one leaves the distances alone   *)
HeavyOK == (phase = "placed" /\ w2 >= 1000 /\ k.clash = {} /\ ~ moved) => RespectsML(k, place)
NullOK == (phase = "placed" /\ w2 = 0 /\ ~ moved) =>
            LET tb == Tab IN \A x \in Items : \A j \in DOMAIN cs : tb.w.c[x][place[x]] <= tb.w.c[x][j]
(* with a heavy weight and a free cluster always at hand, two items that   *)
(* cannot be together are together only at the largest distance            *)
ApartOK == (phase = "placed" /\ w2 >= 1000 /\ nb = N /\ (\A x, y \in Items : x # y => Inf(k, x, y) # ML) /\ ~ moved) =>
             LET tb == Tab IN \A x, y \in Items :
               (x # y /\ place[x] = place[y] /\ Inf(k, x, y) = CL) => tb.w.p[x][y] = tb.w.far
Terminates == <>[](phase = "placed")
=============================================================================
