------------------------------ MODULE MCLarge -------------------------------
(***************************************************************************)
(* The certificate of Large.tla is sound and the linear observers are the  *)
(* declarative ones, for every annotation set of a few items: any certified*)
(* seg gives the knowledge of Constraints, and a certificate always exists.*)
(***************************************************************************)
EXTENDS Large
CONSTANT N
I == 1 .. N
Pairs == {p \in I \X I : p[1] < p[2]}
VARIABLE A
vars == <<A>>
Init == A = {}
Next == \E p \in Pairs, t \in Types :
          /\ Added(A, p[1], p[2]) = NONE
          /\ ~ Conflict(Know(I, A), p[1], p[2], t)
          /\ A' = A \cup {<<p[1], p[2], t>>}
Spec == Init /\ [][Next]_vars
k == Know(I, A)
(* depth is determined by up: any function of small range will do          *)
Sound ==
  \A seg \in [I -> I] : \A up \in [I -> I] : \A dep \in {d \in [I -> 0 .. 2] : \A x \in I : (d[x] = 0) <=> (seg[x] = x)} :
     Certified(I, A, seg, up, dep) => SameKnowledge(k, LargeKnow(I, A, seg))
Exists ==
  \E seg \in {k.rep} : \E up \in [I -> I], dep \in [I -> 0 .. (N - 1)] : Certified(I, A, seg, up, dep)
Observers ==
  /\ CompleteByGroups(k) = Complete(k)
  /\ \A lab \in [I -> 0 .. 2] :
       /\ MLKept(k, lab) = RespectsML(k, lab)
       /\ CLKept(k, lab) /\ MLKept(k, lab) <=> (RespectsCL(k, lab) /\ RespectsML(k, lab))
       /\ CanonicalRun(lab) = Canonical(I, lab)
=============================================================================
