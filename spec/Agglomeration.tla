--------------------------- MODULE Agglomeration ----------------------------
(***************************************************************************)
(* The tree built by constrained hierarchical clustering.                  *)
(* nodes: sequence of records [id, it, ch, mem, depth] (ch: sequence of    *)
(* children ids, mem: sequence of items, it: iteration of the merge,       *)
(* depth: inverse depth).                                                  *)
(***************************************************************************)
EXTENDS CopKMeans

Linkages == {"complete", "single", "average", "ward"}
Abs(n) == IF n < 0 THEN -n ELSE n

(* linkage distance as a rational <<num, den>>; for complete, single and   *)
(* average it is the square of the distance (monotone); for ward, vectors  *)
(* are multiples of one direction and num is the sum of |differences| of   *)
(* the first coordinates                                                   *)
LinkD(linkage, vec, a, b) ==
  CASE linkage = "complete" -> <<Max({D2(vec[x], vec[y]) : x \in a, y \in b}), 1>>
    [] linkage = "single"   -> <<Min({D2(vec[x], vec[y]) : x \in a, y \in b}), 1>>
    [] linkage = "average"  ->
         LET na == Cardinality(a) nb == Cardinality(b) Sa == VSum(vec, a) Sb == VSum(vec, b)
         IN <<SumSeq([i \in 1 .. Len(Sa) |-> Sq(nb * Sa[i] - na * Sb[i])]), Sq(na * nb)>>
    [] linkage = "ward"     ->
         LET U == a \cup b IN
         <<FoldSet(LAMBDA p, s : s + Abs(vec[p[1]][1] - vec[p[2]][1]), 0,
                   {p \in U \X U : p[1] < p[2]}), Cardinality(a) * Cardinality(b)>>
    [] linkage = "ward2"    ->       \* vec is the table of distances between items, in thousandths
         LET U == a \cup b IN
         <<FoldSet(LAMBDA p, s : s + vec[p[1]][p[2]], 0,
                   {p \in U \X U : p[1] < p[2]}), Cardinality(a) * Cardinality(b)>>
LeqQ(p, q) == p[1] * q[2] <= q[1] * p[2]
(* at most 100 pairs, each rounded by half a unit: sums are off by 50      *)
LeqL(linkage, p, q) == IF linkage = "ward2" THEN p[1] * q[2] <= q[1] * p[2] + 50 * (p[2] + q[2])
                       ELSE LeqQ(p, q)
Allowed(k, a, b) == \A x \in a, y \in b : Inf(k, x, y) # CL

Mem(n) == {n.mem[i] : i \in DOMAIN n.mem}
Ch(n)  == {n.ch[i] : i \in DOMAIN n.ch}
NodeSet(nodes) == {nodes[i] : i \in DOMAIN nodes}
Node(T, i) == CHOOSE n \in T : n.id = i
LeavesOf(T) == {n \in T : n.ch = <<>>}
Inner(T) == {n \in T : n.ch # <<>>}
Roots(T) == {n \in T : \A m \in T : n.id \notin Ch(m)}

TreeShape(k, nodes) ==
  LET T == NodeSet(nodes) IN
  /\ Cardinality({n.id : n \in T}) = Len(nodes)
  /\ \A n \in T : /\ Ch(n) \subseteq {m.id : m \in T}
                  /\ Cardinality(Ch(n)) = Len(n.ch)
                  /\ Cardinality(Mem(n)) = Len(n.mem)
  /\ Cardinality(Roots(T)) = 1
  /\ \A n \in T : Cardinality({m \in T : n.id \in Ch(m)}) <= 1
  /\ {Mem(n) : n \in LeavesOf(T)} = Groups(k)
  /\ Cardinality(LeavesOf(T)) = Cardinality(Groups(k))
  /\ \A n \in Inner(T) : LET C == {Node(T, c) : c \in Ch(n)} IN
       /\ Mem(n) = UNION {Mem(c) : c \in C}
       /\ Len(n.mem) = FoldSet(LAMBDA c, s : s + Len(c.mem), 0, C)
       /\ n.depth = 1 + Max({c.depth : c \in C})
       /\ \A c \in C : c.it < n.it
  /\ \A n \in LeavesOf(T) : n.depth = 0
(* the merges, in order *)
ParentIt(T, n) == IF n \in Roots(T) THEN 1000000 ELSE (CHOOSE m \in T : n.id \in Ch(m)).it
Alive(T, t) == {n \in T : n.it < t /\ ParentIt(T, n) >= t}
MergeOK(k, linkage, vec, T, n) ==
  LET alive == Alive(T, n.it)
      okPairs == {p \in alive \X alive : p[1].id < p[2].id /\ Allowed(k, Mem(p[1]), Mem(p[2]))}
      C == {Node(T, c) : c \in Ch(n)}
  IN IF okPairs = {}
     THEN C = alive                                      \* forced root
     ELSE /\ Cardinality(C) = 2 /\ C \subseteq alive
          /\ \E p \in okPairs : {p[1], p[2]} = C
          /\ LET d == LinkD(linkage, vec, Mem(CHOOSE c \in C : TRUE),
                            Mem(CHOOSE c \in C : c # (CHOOSE e \in C : TRUE)))
             IN \A p \in okPairs : LeqL(linkage, d, LinkD(linkage, vec, Mem(p[1]), Mem(p[2])))
MergesOK(k, linkage, vec, nodes) ==
  LET T == NodeSet(nodes) IN
  /\ \A m, n \in Inner(T) : m # n => m.it # n.it
  /\ \A n \in Inner(T) : MergeOK(k, linkage, vec, T, n)

(* Cutting the tree. *)
TopCount(T) == LET r == CHOOSE n \in Roots(T) : TRUE IN IF r.ch = <<>> THEN 1 ELSE Len(r.ch)
CutCount(nodes, nb) == LET T == NodeSet(nodes)
                           leaves == Cardinality(LeavesOf(T))
                           want == IF nb < leaves THEN nb ELSE leaves
                       IN IF TopCount(T) > want THEN TopCount(T) ELSE want
CutNodes(T, B) == {n \in T : Mem(n) \in B}
CutIsAntichain(nodes, B) == {Mem(n) : n \in CutNodes(NodeSet(nodes), B)} = B
(* the nodes opened by the cut came before those kept closed *)
CutOrderOK(nodes, B, by) ==
  LET T == NodeSet(nodes)
      kept == CutNodes(T, B)
      opened == {n \in Inner(T) : \E b \in B : b \subseteq Mem(n) /\ b # Mem(n)}
  IN \A o \in opened : \A q \in kept \cap Inner(T) :
        IF by = "iteration" THEN o.it > q.it ELSE Len(o.mem) >= Len(q.mem)
(* the exception in the count is justified: top-level clusters conflict pairwise *)
ForcedTop(k, nodes) ==
  LET T == NodeSet(nodes) r == CHOOSE n \in Roots(T) : TRUE IN
  Len(r.ch) > 2 => \A c, d \in Ch(r) : c # d => ~ Allowed(k, Mem(Node(T, c)), Mem(Node(T, d)))
=============================================================================
