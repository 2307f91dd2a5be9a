------------------------------ MODULE Density -------------------------------
(* Density reachability, for DBSCAN.  eps2 is the square of the radius.    *)
EXTENDS Sampling, TLC
Nbr(I, vec, eps2, x) == {y \in I : D2(vec[x], vec[y]) <= eps2}
Cores(I, vec, eps2, ms) == {x \in I : Cardinality(Nbr(I, vec, eps2, x)) >= ms}
Reached(I, vec, eps2, ms) == UNION {Nbr(I, vec, eps2, c) : c \in Cores(I, vec, eps2, ms)}
(* items a cluster may contain: reached from a core item, or must-linked   *)
MayHold(k, I, vec, eps2, ms) == Reached(I, vec, eps2, ms) \cup {x \in I : Group(k, x) # {x}}
RECURSIVE Spread(_, _, _, _, _)
Spread(k, R, vec, eps2, S) ==
  LET T == S \cup UNION {Nbr(R, vec, eps2, x) \cup (Group(k, x) \cap R) : x \in S} IN
  IF T = S THEN S ELSE Spread(k, R, vec, eps2, T)
DensityOK(k, I, vec, eps2, ms, lab) ==
  LET R == MayHold(k, I, vec, eps2, ms) IN
  /\ \A x \in I \ R : lab[x] < 0
  /\ \A x \in R : LET same == {y \in I : lab[y] = lab[x]} IN
       (same # {x}) => same \subseteq Spread(k, {y \in R : lab[y] >= 0}, vec, eps2, {x})
DensityAllOK(I, vec, eps2, ms, lab) == \A x \in Reached(I, vec, eps2, ms) : lab[x] >= 0
(* labels of DBSCAN: noise -1, -2, ... each once; the others canonical     *)
NoiseOK(I, lab) == LET Z == {x \in I : lab[x] < 0} IN
  {lab[x] : x \in Z} = {-i : i \in 1 .. Cardinality(Z)}
RegularOK(I, lab) == Canonical({x \in I : lab[x] >= 0}, lab)
(* ---- affinity propagation: a choice of one exemplar group per cluster   *)
GroupD2(vec, g, h) == Min({D2(vec[x], vec[y]) : x \in g, y \in h})
(* two exemplars, one per cluster, suit a cluster; clusters and groups are *)
(* named by their smallest items                                           *)
Suits(D, gs, x, y) == \A g \in gs : g = x \/ D[g, x] <= D[g, y]
RECURSIVE Choice(_, _, _, _)              \* exemplars for the clusters in rest, given those in c
Choice(D, gs, rest, c) ==
  \/ rest = {}
  \/ LET b == Min(rest) IN
     \E x \in gs[b] : /\ \A a \in DOMAIN c : Suits(D, gs[a], c[a], x) /\ Suits(D, gs[b], x, c[a])
                      /\ Choice(D, gs, rest \ {b}, c @@ (b :> x))
Exemplary(k, vec, B) ==
  \/ Cardinality(B) = 1
  \/ LET R == {k.rep[x] : x \in DOMAIN k.rep}
         D == TLCEval([g, h \in R |-> GroupD2(vec, Group(k, g), Group(k, h))])
         gs == TLCEval([b \in {Min(p) : p \in B} |-> {k.rep[x] : x \in CHOOSE p \in B : b \in p}])
     IN Choice(D, gs, DOMAIN gs, <<>>)
=============================================================================
