------------------------------ MODULE Sampling ------------------------------
(***************************************************************************)
(* What a sample of pairs to annotate may be, given the manager's state,   *)
(* a clustering (lab), integer vectors (vec) and the sampler options.      *)
(***************************************************************************)
EXTENDS Constraints

AnyCluster == 0   SameCluster == 1   DifferentClusters == 2     \* restr
AnyDist == 0      Closest == 1       Farthest == 2              \* dist

Sq(n) == n * n
SumSeq(s) == FoldSeq(LAMBDA a, b : a + b, 0, s)
D2(u, v) == SumSeq([i \in 1 .. Len(u) |-> Sq(u[i] - v[i])])

Eligible(k, A, lab, restr, wa, wi) ==
  {p \in (DOMAIN k.rep) \X (DOMAIN k.rep) :
     /\ p[1] < p[2]
     /\ (restr = SameCluster => lab[p[1]] = lab[p[2]])
     /\ (restr = DifferentClusters => lab[p[1]] # lab[p[2]])
     /\ (wa => Added(A, p[1], p[2]) = NONE)
     /\ (wi => Inf(k, p[1], p[2]) = NONE)}

SampleEligible(pairs, E) == \A i \in DOMAIN pairs : pairs[i] \in E
SampleDistinct(pairs) == Cardinality({pairs[i] : i \in DOMAIN pairs}) = Len(pairs)
SampleSize(pairs, E, nb) == Len(pairs) = IF nb < Cardinality(E) THEN nb ELSE Cardinality(E)

PairD(vec, p) == D2(vec[p[1]], vec[p[2]])
SampleSorted(pairs, vec, dist) ==
  \A i \in 1 .. (Len(pairs) - 1) :
     IF dist = Closest THEN PairD(vec, pairs[i]) <= PairD(vec, pairs[i + 1])
                       ELSE PairD(vec, pairs[i]) >= PairD(vec, pairs[i + 1])
SampleExtreme(pairs, E, vec, dist) ==       \* nothing left out is better than the worst chosen
  LET chosen == {pairs[i] : i \in DOMAIN pairs}
      ds == {PairD(vec, p) : p \in chosen}
  IN chosen = {} \/
     IF dist = Closest THEN LET m == Max(ds) IN \A q \in E \ chosen : m <= PairD(vec, q)
                       ELSE LET m == Min(ds) IN \A q \in E \ chosen : m >= PairD(vec, q)
=============================================================================
