------------------------------- MODULE Large --------------------------------
(***************************************************************************)
(* Managers and clusterings of a thousand items.  The groups come with a   *)
(* certificate instead of being computed: seg[x] is the root of x's group, *)
(* up[x] a must-linked neighbour of x one step closer to the root (dep).   *)
(* Certified says that the certificate proves exactly these groups; then   *)
(* LargeKnow is Know and everything else is the theory of Constraints.     *)
(* LargeTheory (checked by MCLarge for every annotation set of a small     *)
(* scope) states just that.                                                *)
(***************************************************************************)
EXTENDS Constraints

Certified(I, A, seg, up, dep) ==
  /\ \A a \in A : a[3] = ML => seg[a[1]] = seg[a[2]]
  /\ \A x \in I : \/ seg[x] = x
                  \/ /\ Ann(x, up[x], ML) \in A
                     /\ dep[up[x]] < dep[x]
                     /\ seg[up[x]] = seg[x]
LargeKnow(I, A, seg) == LET rep == [x \in I |-> seg[x]] IN [rep |-> rep, clash |-> ClashOf(rep, A)]
SameKnowledge(k1, k2) == \A x, y \in DOMAIN k1.rep : Inf(k1, x, y) = Inf(k2, x, y)

(* linear forms of the observers                                           *)
GroupsAre(k, comps) ==
  LET flat == FoldSeq(LAMBDA c, s : s + Len(c), 0, comps) IN
  /\ flat = Cardinality(DOMAIN k.rep)
  /\ Len(comps) = Cardinality(Reps(k))
  /\ UNION {{comps[i][j] : j \in DOMAIN comps[i]} : i \in DOMAIN comps} = DOMAIN k.rep
  /\ \A i \in DOMAIN comps : comps[i] # <<>> /\ \A j \in DOMAIN comps[i] : k.rep[comps[i][j]] = k.rep[comps[i][1]]
CompleteByGroups(k) == \A r, s \in Reps(k) : r = s \/ <<r, s>> \in k.clash
InvolvedAre(k, x, y, items) ==
  /\ \A i \in DOMAIN items : k.rep[items[i]] \in {k.rep[x], k.rep[y]}
  /\ Cardinality({items[i] : i \in DOMAIN items}) = Len(items)
  /\ Len(items) = Cardinality({z \in DOMAIN k.rep : k.rep[z] \in {k.rep[x], k.rep[y]}})
(* labels numbered by first appearance, in one pass                        *)
CanonicalRun(seq) ==
  FoldSeq(LAMBDA v, s : IF s >= 0 /\ v \in 0 .. s THEN (IF v = s THEN s + 1 ELSE s) ELSE -1, 0, seq) >= 0
MLKept(k, lab) == \A x \in DOMAIN k.rep : lab[x] = lab[k.rep[x]]
CLKept(k, lab) == \A c \in k.clash : lab[c[1]] # lab[c[2]]
=============================================================================
