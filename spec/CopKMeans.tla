----------------------------- MODULE CopKMeans ------------------------------
(***************************************************************************)
(* One iteration of COP-kmeans as a relation between the current clusters  *)
(* P (whose means are the centroids) and the next clusters Q, both given   *)
(* as sets of blocks of items.  vec gives integer vectors; all distance    *)
(* comparisons are exact (cross-multiplied integers).                      *)
(***************************************************************************)
EXTENDS Sampling

VSum(vec, b) == LET d == Len(vec[CHOOSE x \in b : TRUE]) IN
                [i \in 1 .. d |-> FoldSet(LAMBDA x, s : s + vec[x][i], 0, b)]
(* squared distance of item x to the mean of block b, times |b|^2 *)
DistNum(vec, x, b, S) == LET n == Cardinality(b) IN
                SumSeq([i \in 1 .. Len(S) |-> Sq(n * vec[x][i] - S[i])])

(* Closer(x, b, c): the mean of b is strictly closer to x than the mean of c *)
CloserTable(vec, I, P) ==
  LET S == [b \in P |-> VSum(vec, b)]
      N == [x \in I |-> [b \in P |-> DistNum(vec, x, b, S[b])]]
  IN [x \in I |-> [c \in P |-> {b \in P : N[x][b] * Sq(Cardinality(c)) < N[x][c] * Sq(Cardinality(b))}]]

BlocksAgainst(k, g, Q) ==       \* clusters holding an item that conflicts with group g
  {q \in Q : \E x \in g, y \in q : Inf(k, x, y) = CL}
GroupsIn(k, q) == {g \in Groups(k) : g \cap q # {}}

(* pi matches next clusters with current centroids ({} = newly opened) *)
AssignOK(k, closer, P, Q, pi) ==
  \A q \in Q : \A g \in GroupsIn(k, q) :
    LET barred == {pi[r] : r \in BlocksAgainst(k, g, Q)} IN
    \E m \in g : IF pi[q] = {} THEN P \subseteq barred
                               ELSE closer[m][pi[q]] \subseteq barred
Candidates(k, closer, P, Q, q) ==
  {p \in P : \A g \in GroupsIn(k, q) : \E m \in g :
       Cardinality(closer[m][p]) <= Cardinality(BlocksAgainst(k, g, Q))}
  \cup (IF \A g \in GroupsIn(k, q) : Cardinality(P) <= Cardinality(BlocksAgainst(k, g, Q))
        THEN {{}} ELSE {})
RECURSIVE Match(_, _, _, _, _, _)
Match(k, closer, P, Q, todo, pi) ==
  IF todo = {} THEN AssignOK(k, closer, P, Q, pi)
  ELSE LET q == CHOOSE r \in todo : TRUE IN
       \E p \in Candidates(k, closer, P, Q, q) :
         /\ p = {} \/ \A r \in DOMAIN pi : pi[r] # p
         /\ Match(k, closer, P, Q, todo \ {q}, [r \in DOMAIN pi \cup {q} |-> IF r = q THEN p ELSE pi[r]])
EmptyMatch == [r \in {} |-> {}]
StepOK(k, vec, P, Q) ==
  Match(k, CloserTable(vec, DOMAIN k.rep, P), P, Q, Q, EmptyMatch)
(* first iteration: centroids are the vectors of n distinct items *)
SeedOK(k, vec, n, Q) ==
  \E seeds \in kSubset(n, DOMAIN k.rep) : StepOK(k, vec, {{x} : x \in seeds}, Q)

(* the centroids did not move: same means, as rational vectors *)
SameMeans(vec, P, Q) ==
  LET eq(b, c) == LET S == VSum(vec, b) T == VSum(vec, c) m == Cardinality(b) n == Cardinality(c) IN
                  \A i \in DOMAIN S : n * S[i] = m * T[i]
  IN /\ \A b \in P : \E c \in Q : eq(b, c)
     /\ \A c \in Q : \E b \in P : eq(b, c)
(* published centroids, scaled by Scale, against the means of the blocks *)
Scale == 720720
Near(a, b) == a - b <= 2 /\ b - a <= 2
MeanOK(vec, b, c) == LET S == VSum(vec, b) n == Cardinality(b) IN
  /\ Len(c) = Len(S)
  /\ \A i \in 1 .. Len(S) : n * c[i] - S[i] * Scale \in -2 * n .. 2 * n
=============================================================================
