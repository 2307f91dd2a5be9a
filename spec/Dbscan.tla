------------------------------- MODULE Dbscan -------------------------------
(***************************************************************************)
(* Constrained DBSCAN as a machine.  Local clusters are built around dense *)
(* items (a neighbourhood in conflict is broken up into single items),     *)
(* merged along must-links into core clusters, which then absorb near      *)
(* local clusters they do not conflict with, in any order and possibly     *)
(* stopping early; what is left is clustered by neighbourhood, or noise.   *)
(***************************************************************************)
EXTENDS Density, Scenarios
CONSTANTS Span, MaxMS, Families
VARIABLES k, vec, ms, drop, phase, i, label, local, core, assigned, lab
vars == <<k, vec, ms, drop, phase, i, label, local, core, assigned, lab>>
Eps2 == 1
Positions == IF Families = {} THEN [Items -> 0 .. Span]
             ELSE {[x \in Items |-> (CASE f = "even" -> x [] f = "pairs" -> 2 * (x \div 2) [] f = "same" -> 0
                                       [] f = "gap" -> IF x < 3 THEN x ELSE 2 * x [] f = "zigzag" -> (x * 3) % 5)] : f \in Families}
Init == /\ k \in AllKnowledge
        /\ \E p \in Positions : vec = [x \in Items |-> <<p[x]>>]
        /\ ms \in 1 .. MaxMS
        /\ drop \in BOOLEAN              \* a radius above 1: small remainders may be dropped
        /\ phase = "local" /\ i = 1
        /\ label = [x \in Items |-> "UNLABELED"]
        /\ local = [x \in Items |-> {}] /\ core = [x \in Items |-> {}]
        /\ assigned = [x \in Items |-> 0] /\ lab = [x \in Items |-> -x]
Free(S) == \A x, y \in S : Inf(k, x, y) # CL
Step(p) == IF i < N THEN i' = i + 1 /\ phase' = phase ELSE i' = 1 /\ phase' = p
Local ==
  /\ phase = "local"
  /\ LET nb == {y \in Nbr(Items, vec, Eps2, i) : label[y] # "SINGLE_CORE"} IN
     IF label[i] = "SINGLE_CORE" THEN UNCHANGED <<label, local>>
     ELSE IF Cardinality(nb) < ms THEN label' = [label EXCEPT ![i] = "NOISE"] /\ UNCHANGED local
     ELSE IF ~ Free(nb) THEN /\ label' = [x \in Items |-> IF x \in nb THEN "SINGLE_CORE" ELSE label[x]]
                             /\ local' = [x \in Items |-> IF x \in nb THEN {x} ELSE local[x]]
     ELSE label' = [label EXCEPT ![i] = "CORE"] /\ local' = [local EXCEPT ![i] = nb]
  /\ Step("must")
  /\ UNCHANGED <<k, vec, ms, drop, core, assigned, lab>>
Must ==
  /\ phase = "must"
  /\ LET pts == (IF label[i] = "NOISE" THEN {i} ELSE local[i]) \cup {j \in Group(k, i) : label[j] # "NOISE"}
         new == {p \in pts : assigned[p] = 0} IN
     /\ core' = [core EXCEPT ![i] = new \cup Group(k, i)]
     /\ assigned' = [x \in Items |-> IF x \in new THEN i ELSE assigned[x]]
  /\ Step("clean")
  /\ UNCHANGED <<k, vec, ms, drop, label, local, lab>>
Clean ==
  /\ phase = "clean"
  /\ core' = [x \in Items |-> IF assigned[x] # x \/ Cardinality(core[x]) < 2 THEN {} ELSE core[x]]
  /\ phase' = "absorb"
  /\ UNCHANGED <<k, vec, ms, drop, i, label, local, assigned, lab>>
Touch(S, T) == \E x \in S, y \in T : D2(vec[x], vec[y]) <= Eps2
Absorb ==
  /\ phase = "absorb" /\ core[i] # {}
  /\ \E c \in Items : /\ local[c] # {} /\ Touch(core[i], local[c])
                      /\ \A x \in core[i], y \in local[c] : Inf(k, x, y) # CL
                      /\ core' = [core EXCEPT ![i] = @ \cup local[c]]
                      /\ local' = [local EXCEPT ![c] = {}]
  /\ UNCHANGED <<k, vec, ms, drop, phase, i, label, assigned, lab>>
NextCore == /\ phase = "absorb" /\ Step("final")
            /\ UNCHANGED <<k, vec, ms, drop, label, local, core, assigned, lab>>
(* later core clusters take their items back from earlier ones             *)
CoreLab == [x \in Items |-> LET S == {c \in Items : x \in core[c]} IN IF S = {} THEN -x ELSE Max(S)]
Final ==
  /\ phase = "final"
  /\ LET RECURSIVE rest(_, _)
         rest(c, f) == IF c > N THEN f
                       ELSE LET p == {x \in local[c] : f[x] < 0} IN
                            IF p = {} \/ (drop /\ Cardinality(p) = 1) THEN rest(c + 1, f)
                            ELSE rest(c + 1, [x \in Items |-> IF x \in p THEN N + c ELSE f[x]])
     IN lab' = rest(1, CoreLab)
  /\ phase' = "done"
  /\ UNCHANGED <<k, vec, ms, drop, i, label, local, core, assigned>>
Next == Local \/ Must \/ Clean \/ Absorb \/ NextCore \/ Final
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
----------------------------------------------------------------------------
(* C16, at every moment *)
ClustersFree == \A c \in Items : Free(core[c]) /\ Free(local[c])
Respects == phase = "done" => RespectsCL(k, lab)
(* C26 *)
Density == phase = "done" => DensityOK(k, Items, vec, Eps2, ms, lab)
NoAnnotation == k.clash = {} /\ \A x \in Items : k.rep[x] = x
ReachedOK == (phase = "done" /\ NoAnnotation /\ ~ drop) => DensityAllOK(Items, vec, Eps2, ms, lab)
OneClusterEach == phase = "done" => \A x, y \in Items : (lab[x] < 0 /\ x # y) => lab[x] # lab[y]
Terminates == <>(phase = "done")
=============================================================================
