---------------------------- MODULE Constraints ----------------------------
(***************************************************************************)
(* Pure theory of binary (MUST_LINK / CANNOT_LINK) constraints.            *)
(*                                                                         *)
(* Items are integers: the rank of the data ID in Python's string order,   *)
(* so that "<" on items is "<" on IDs.  An annotation set A is a set of    *)
(* triples <<x, y, t>> with x < y and t one of ML, CL.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt

NONE == 0
ML   == 1
CL   == 2
Types == {ML, CL}
Opp(t) == IF t = ML THEN CL ELSE ML

Ann(x, y, t) == IF x < y THEN <<x, y, t>> ELSE <<y, x, t>>
Added(A, x, y) ==            \* the explicit annotation between x # y
  IF Ann(x, y, ML) \in A THEN ML ELSE IF Ann(x, y, CL) \in A THEN CL ELSE NONE

----------------------------------------------------------------------------
(* Declarative meaning: chains of must-link annotations. *)
MLStep(A, S) == S \cup {e[1] : e \in {a \in A : a[3] = ML /\ a[2] \in S}}
                  \cup {e[2] : e \in {a \in A : a[3] = ML /\ a[1] \in S}}
RECURSIVE Reach(_, _)
Reach(A, S) == LET T == MLStep(A, S) IN IF T = S THEN S ELSE Reach(A, T)
ChainML(A, x, y) == y \in Reach(A, {x})
ChainCL(A, x, y) == \E a \in A : /\ a[3] = CL
                                 /\ \/ ChainML(A, x, a[1]) /\ ChainML(A, a[2], y)
                                    \/ ChainML(A, x, a[2]) /\ ChainML(A, a[1], y)
Declared(A, x, y) == IF ChainML(A, x, y) THEN ML
                     ELSE IF ChainCL(A, x, y) THEN CL ELSE NONE
Satisfiable(A) == \A a \in A : a[3] = CL => ~ ChainML(A, a[1], a[2])

----------------------------------------------------------------------------
(* Computable form: representative of each group and conflicting group     *)
(* pairs.  Manager.tla checks that it coincides with the declarative one.  *)
Join(f, x, y) == IF f[x] = f[y] THEN f
                 ELSE LET lo == IF f[x] < f[y] THEN f[x] ELSE f[y]
                          hi == IF f[x] < f[y] THEN f[y] ELSE f[x]
                      IN [z \in DOMAIN f |-> IF f[z] = hi THEN lo ELSE f[z]]
RepOf(I, A) == FoldSet(LAMBDA a, f : Join(f, a[1], a[2]),
                       [x \in I |-> x], {a \in A : a[3] = ML})
ClashOf(rep, A) == UNION {{<<rep[a[1]], rep[a[2]]>>, <<rep[a[2]], rep[a[1]]>>} :
                          a \in {b \in A : b[3] = CL}}
Know(I, A) == LET rep == RepOf(I, A) IN [rep |-> rep, clash |-> ClashOf(rep, A)]
Inf(k, x, y) == IF k.rep[x] = k.rep[y] THEN ML
                ELSE IF <<k.rep[x], k.rep[y]>> \in k.clash THEN CL ELSE NONE

Group(k, x) == {y \in DOMAIN k.rep : k.rep[y] = k.rep[x]}
Groups(k)   == {Group(k, x) : x \in DOMAIN k.rep}
Complete(k) == \A x, y \in DOMAIN k.rep : Inf(k, x, y) # NONE
Conflict(k, x, y, t) == Inf(k, x, y) = Opp(t)
Involved(k, x, y) == Group(k, x) \cup Group(k, y)

----------------------------------------------------------------------------
(* The achievable numbers of clusters: colourings of the conflict graph    *)
(* between groups.                                                         *)
Reps(k) == {k.rep[x] : x \in DOMAIN k.rep}
RECURSIVE CanColour(_, _, _, _)
CanColour(clash, todo, colouring, n) ==      \* colouring: set of blocks
  IF todo = <<>> THEN TRUE
  ELSE LET v == Head(todo)
           free(b) == \A w \in b : <<v, w>> \notin clash
       IN \/ \E b \in colouring : /\ free(b)
                                  /\ CanColour(clash, Tail(todo),
                                               (colouring \ {b}) \cup {b \cup {v}}, n)
          \/ /\ Cardinality(colouring) < n
             /\ CanColour(clash, Tail(todo), colouring \cup {{v}}, n)
Colourable(k, n) == CanColour(k.clash, SetToSeq(Reps(k)), {}, n)
ChromaticNumber(k) == CHOOSE n \in 0 .. Cardinality(Reps(k)) :
                        /\ Colourable(k, n)
                        /\ \A m \in 0 .. (n - 1) : ~ Colourable(k, m)
(* items whose groups conflict pairwise need as many clusters *)
Clique(k, S) == S \subseteq DOMAIN k.rep /\ \A x, y \in S : k.rep[x] = k.rep[y] \/ Inf(k, x, y) = CL
Degree(k, v) == Cardinality({w \in Reps(k) : <<v, w>> \in k.clash})

----------------------------------------------------------------------------
(* Clusterings: a function lab from items to labels. *)
RespectsML(k, lab) == \A x, y \in DOMAIN k.rep : Inf(k, x, y) = ML => lab[x] = lab[y]
RespectsCL(k, lab) == \A x, y \in DOMAIN k.rep : Inf(k, x, y) = CL => lab[x] # lab[y]
Blocks(I, lab) == {{y \in I : lab[y] = lab[x]} : x \in I}
(* labels 0, 1, 2, ... numbered by first appearance in item order *)
FirstOf(I, lab, x) == Min({y \in I : lab[y] = lab[x]})
Canonical(I, lab) ==
  \A x \in I : lab[x] = Cardinality({lab[z] : z \in {w \in I : w < FirstOf(I, lab, x)}})
=============================================================================
