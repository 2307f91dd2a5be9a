-------------------------------- MODULE Cop ---------------------------------
(***************************************************************************)
(* COP-kmeans as a machine: items are taken in any order; a group is       *)
(* placed, seen from the first of its members taken, in the closest        *)
(* cluster that holds nothing it conflicts with, or in a new one; then the *)
(* centroids move to the means and the next iteration starts.              *)
(***************************************************************************)
EXTENDS CopKMeans, Scenarios
CONSTANTS Vecs, MaxIt
VARIABLES k, vec, nb, P, place, it, phase, first
vars == <<k, vec, nb, P, place, it, phase, first>>
Vec(f) == [x \in Items |-> (CASE f = "line" -> <<x * x>>
                              [] f = "pairs" -> <<x \div 2>>
                              [] f = "same" -> <<1>>
                              [] f = "plane" -> <<(x * 5) % 7, (x * 3) % 4>>)]
NewBlock(i) == {N + i}                      \* names of opened clusters
Used == {place[g] : g \in DOMAIN place}
Init == /\ k \in AllKnowledge
        /\ vec \in {Vec(f) : f \in Vecs}
        /\ nb \in 2 .. N
        /\ \E s \in kSubset(nb, Items) : P = {{x} : x \in s}
        /\ place = [g \in {} |-> {}]
        /\ it = 1 /\ phase = "assign" /\ first = P
Barred(g) == {place[h] : h \in {j \in DOMAIN place : \E x \in j, y \in g : Inf(k, x, y) = CL}}
Place(g, c) == place' = [h \in DOMAIN place \cup {g} |-> IF h = g THEN c ELSE place[h]]
Assign == /\ phase = "assign"
          /\ \E g \in Groups(k) \ DOMAIN place : \E m \in g :
               LET open == (P \cup Used) \ Barred(g)
                   real == open \cap P
                   closer == CloserTable(vec, Items, P)
               IN IF real # {}
                  THEN \E c \in real : closer[m][c] \cap open = {} /\ Place(g, c)
                  ELSE \* clusters opened in this pass have no centroid yet: a new one is opened
                       Place(g, NewBlock(Cardinality(DOMAIN place) + 1))
          /\ UNCHANGED <<k, vec, nb, P, it, phase, first>>
Now == {UNION {g \in DOMAIN place : place[g] = c} : c \in Used}
Move == /\ phase = "assign" /\ DOMAIN place = Groups(k)
        /\ phase' = "moved"
        /\ UNCHANGED <<k, vec, nb, P, place, it, first>>
Again == /\ phase = "moved" /\ it < MaxIt
         /\ P' = Now /\ it' = it + 1 /\ place' = [g \in {} |-> {}] /\ phase' = "assign"
         /\ UNCHANGED <<k, vec, nb, first>>
Next == Assign \/ Move \/ Again
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
----------------------------------------------------------------------------
Lab == [x \in Items |-> Min(CHOOSE b \in Now : x \in b)]
(* C15: groups are never split and conflicts are respected, also half-way  *)
PartialOK == \A g, h \in DOMAIN place : place[g] = place[h] =>
                \A x \in g, y \in h : Inf(k, x, y) # CL
Respects == phase = "moved" => RespectsML(k, Lab) /\ RespectsCL(k, Lab)
(* C19: the machine's steps satisfy the relation that judges the traces    *)
StepsOK == phase = "moved" => IF it = 1 THEN SeedOK(k, vec, nb, Now) ELSE StepOK(k, vec, P, Now)
(* C18 *)
CountOK == phase = "moved" => (Cardinality(Now) <= nb \/ k.clash # {})
Terminates == <>[](phase = "moved")
=============================================================================
