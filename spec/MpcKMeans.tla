----------------------------- MODULE MpcKMeans ------------------------------
(***************************************************************************)
(* One round of MPC-kmeans as a relation between the current centres and   *)
(* the next clusters.  Centres are the means of a sequence of blocks of    *)
(* items.  Items are placed one at a time, in an unknown order, each at    *)
(* the lowest cost: squared distance to the centre, plus, for each         *)
(* constraint violated with an item already placed, twice the weight times *)
(* the squared distance (must-link) or the largest squared distance minus  *)
(* it (cannot-link).  Then every empty cluster is given the item farthest  *)
(* from its centre.  Integers only: w2 is twice the weight, coordinates    *)
(* are multiplied by a common multiple of the blocks' sizes, and the       *)
(* metric's weights (one per dimension) are scaled to 1024; when that      *)
(* rounds them, costs that are too close to tell are taken as equal.       *)
(***************************************************************************)
EXTENDS CopKMeans, TLC

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
LcmOf(S) == FoldSet(LAMBDA b, acc : (acc * Cardinality(b)) \div Gcd(acc, Cardinality(b)), 1, S)
SeqSet(s) == {s[i] : i \in DOMAIN s}
Centre(vec, b, q) == LET S == VSum(vec, b) IN [d \in DOMAIN S |-> S[d] * (q \div Cardinality(b))]
Times(u, q) == [d \in DOMAIN u |-> q * u[d]]
(* metrics *)
Ones(D) == [a |-> [d \in 1 .. D |-> 1], exact |-> TRUE]
W2(met, u, v) == IF Len(u) = 1 THEN met.a[1] * Sq(u[1] - v[1]) ELSE IF Len(u) = 2 THEN met.a[1] * Sq(u[1] - v[1]) + met.a[2] * Sq(u[2] - v[2]) ELSE SumSeq([d \in DOMAIN u |-> met.a[d] * Sq(u[d] - v[d])])
Linked(k, x, t) == {y \in DOMAIN k.rep \ {x} : Inf(k, x, y) = t}
(* everything a round needs: distances to centres and between items, in    *)
(* the metric and (for the rounding errors) with every weight one          *)
RoundTable(k, vec, cs, met) ==
  LET I == DOMAIN k.rep
      q == LcmOf(SeqSet(cs))
      c == TLCEval([j \in DOMAIN cs |-> Centre(vec, cs[j], q)])
      v == TLCEval([x \in I |-> Times(vec[x], q)])
      one == Ones(Len(met.a))
      tab(m) == LET p == TLCEval([x \in I |-> [y \in I |-> W2(m, v[x], v[y])]]) IN
                [c |-> [x \in I |-> [j \in DOMAIN cs |-> W2(m, v[x], c[j])]], p |-> p,
                 far |-> Max({p[x][y] : x, y \in I})]
  IN TLCEval([w |-> tab(met), u |-> tab(one), exact |-> met.exact, J |-> DOMAIN cs,
      ml |-> [x \in I |-> Linked(k, x, ML)], cl |-> [x \in I |-> Linked(k, x, CL)]])
SumOver(S, Op(_)) == FoldSet(LAMBDA y, s : s + Op(y), 0, S)
(* placing x in j when the items of S are placed as lab says               *)
CostIn(t, w2, tb, lab, S, x, j) ==
  t.c[x][j] + w2 * SumOver({y \in tb.ml[x] \cap S : lab[y] # j}, LAMBDA y : t.p[x][y])
            + w2 * SumOver({y \in tb.cl[x] \cap S : lab[y] = j}, LAMBDA y : t.far - t.p[x][y])
NotAbove(tb, w2, lab, S, x, i, j) ==       \* i costs no more than j
  CostIn(tb.w, w2, tb, lab, S, x, i) <= CostIn(tb.w, w2, tb, lab, S, x, j)
     + (IF tb.exact THEN 0 ELSE CostIn(tb.u, w2, tb, lab, S, x, i) + CostIn(tb.u, w2, tb, lab, S, x, j))
FitsAt(tb, w2, lab, S, x, i) == \A j \in tb.J : NotAbove(tb, w2, lab, S, x, i, j)
(* is there an order of placement that leads to lab?  Only the items with  *)
(* partners depend on what was placed before                               *)
RECURSIVE Grow(_, _, _, _, _)
Grow(tb, w2, lab, all, level) ==
  IF all \in level THEN TRUE
  ELSE LET next == UNION {{S \cup {x} : x \in {y \in all \ S : FitsAt(tb, w2, lab, S, y, lab[y])}} : S \in level}
       IN next # {} /\ Grow(tb, w2, lab, all, next)
GreedyOK(tb, w2, lab) ==
  LET tied == {x \in DOMAIN lab : tb.ml[x] \cup tb.cl[x] # {}} IN
  /\ \A x \in DOMAIN lab \ tied : FitsAt(tb, w2, lab, {}, x, lab[x])
  /\ Grow(tb, w2, lab, tied, {{}})
(* filling the empty clusters                                              *)
Held(lab, j) == {x \in DOMAIN lab : lab[x] = j}
Empties(tb, lab) == {j \in tb.J : Held(lab, j) = {}}
Givable(tb, lab) ==
  LET can == {x \in DOMAIN lab : Held(lab, lab[x]) # {x}} IN
  {x \in can : \A y \in can :
      tb.w.c[x][lab[x]] + (IF tb.exact THEN 0 ELSE tb.u.c[x][lab[x]] + tb.u.c[y][lab[y]]) >= tb.w.c[y][lab[y]]}
RECURSIVE Filled(_, _)
Filled(tb, lab) ==               \* the possible results
  IF Empties(tb, lab) = {} THEN {lab}
  ELSE UNION {Filled(tb, [lab EXCEPT ![x] = j]) : x \in Givable(tb, lab), j \in Empties(tb, lab)}
(* what lab may have been before the empty clusters were filled            *)
Before(tb, lab) ==
  LET alone == {x \in DOMAIN lab : Held(lab, lab[x]) = {x}} IN
  UNION {LET other == tb.J \ {lab[x] : x \in Z} IN
         {[x \in DOMAIN lab |-> IF x \in Z THEN g[x] ELSE lab[x]] : g \in [Z -> other]} :
         Z \in {Y \in SUBSET alone : Cardinality(Y) < Cardinality(tb.J)}}
Outcome(tb, w2, lab) ==
  \/ GreedyOK(tb, w2, lab)
  \/ \E b \in Before(tb, lab) \ {lab} : lab \in Filled(tb, b) /\ GreedyOK(tb, w2, b)
(* the clusters of B, matched in any way with the centres                  *)
Matchings(J, B) == {f \in [J -> B] : \A i, j \in J : i # j => f[i] # f[j]}
MpcStep(k, vec, cs, met, w2, B) ==
  /\ Cardinality(B) = Len(cs)
  /\ \E tb \in {RoundTable(k, vec, cs, met)} :
     \E f \in Matchings(DOMAIN cs, B) :
        Outcome(tb, w2, TLCEval([x \in DOMAIN k.rep |-> CHOOSE j \in DOMAIN cs : x \in f[j]]))

----------------------------------------------------------------------------
(* The first centres: those of the must-link groups; a spread choice when  *)
(* there are too many, completed by items when there are too few           *)
RECURSIVE Spreads(_, _, _, _)
Spreads(ctr, G, n, seq) ==
  IF Len(seq) = n THEN {seq}
  ELSE LET left == G \ SeqSet(seq)
           far(g) == Sq(Cardinality(g)) * Min({D2(ctr[g], ctr[h]) : h \in SeqSet(seq)})
           best == {g \in left : \A h \in left : far(g) >= far(h)}
       IN UNION {Spreads(ctr, G, n, Append(seq, g)) : g \in best}
FirstCentres(k, vec, n) ==
  LET G == Groups(k) q == LcmOf(G) ctr == [g \in G |-> Centre(vec, g, q)] IN
  IF Cardinality(G) >= n
  THEN UNION {Spreads(ctr, G, n, <<g>>) : g \in G}
  ELSE {SetToSeq(G) \o SetToSeq({{x} : x \in S}) : S \in kSubset(n - Cardinality(G), DOMAIN k.rep)}

----------------------------------------------------------------------------
(* The metric learnt from clusters B, f being the farthest pair: each      *)
(* dimension weighs the inverse of its scatter and violations (one or two  *)
(* dimensions)                                                             *)
Pairs2(k, t) == {p \in (DOMAIN k.rep) \X (DOMAIN k.rep) : p[1] < p[2] /\ Inf(k, p[1], p[2]) = t}
Scatter(k, vec, B, f, w2, d) ==
  LET q == LcmOf(B)
      lab == [x \in DOMAIN k.rep |-> CHOOSE b \in B : x \in b]
      del(x, y) == Sq(vec[x][d] - vec[y][d])
      pos(n) == IF n > 0 THEN n ELSE 0
  IN 2 * SumOver(DOMAIN k.rep, LAMBDA x : Sq(q * vec[x][d] - Centre(vec, lab[x], q)[d]))
     + w2 * Sq(q) * SumOver({p \in Pairs2(k, ML) : lab[p[1]] # lab[p[2]]}, LAMBDA p : del(p[1], p[2]))
     + 2 * w2 * Sq(q) * SumOver({p \in Pairs2(k, CL) : lab[p[1]] = lab[p[2]]}, LAMBDA p : pos(del(f[1], f[2]) - del(p[1], p[2])))
FarPairs(k, vec, met) ==
  LET I == DOMAIN k.rep
      P == {p \in I \X I : p[1] < p[2]}
      w(p) == W2(met, vec[p[1]], vec[p[2]])
      u(p) == W2(Ones(Len(met.a)), vec[p[1]], vec[p[2]])
  IN {p \in P : \A r \in P : w(p) + (IF met.exact THEN 0 ELSE u(p) + u(r)) >= w(r)}
Learn(k, vec, B, f, w2) ==
  IF Len(vec[f[1]]) = 1 THEN Ones(1)
  ELSE LET a == Scatter(k, vec, B, f, w2, 1) b == Scatter(k, vec, B, f, w2, 2) IN
       IF a + b = 0 \/ a = b THEN Ones(2)
       ELSE [a |-> <<(1024 * b) \div (a + b), (1024 * a) \div (a + b)>>, exact |-> FALSE]
Learnt(k, vec, B, mets, w2) ==
  UNION {{Learn(k, vec, B, f, w2) : f \in FarPairs(k, vec, m)} : m \in mets}

(* A whole run, seen through the clusters after one, two, ... rounds at    *)
(* most: each is a round after the previous one, or the same again when    *)
(* the centres had already stopped moving                                  *)
RECURSIVE RoundsOK(_, _, _, _, _, _, _)
RoundsOK(k, vec, w2, its, t, mets, still) ==
  IF t > Len(its) THEN TRUE
  ELSE LET P == its[t - 1] Q == its[t] IN
       \/ still /\ Q = P /\ RoundsOK(k, vec, w2, its, t + 1, mets, TRUE)
       \/ /\ \E m \in mets : MpcStep(k, vec, SetToSeq(P), m, w2, Q)
          /\ RoundsOK(k, vec, w2, its, t + 1, Learnt(k, vec, Q, mets, w2), SameMeans(vec, P, Q))
MpcRun(k, vec, n, w2, its) ==
  LET one == {Ones(Len(vec[CHOOSE x \in DOMAIN k.rep : TRUE]))}
      m == CHOOSE r \in one : TRUE
      C == FirstCentres(k, vec, n)
  IN /\ \E cs \in C : MpcStep(k, vec, cs, m, w2, its[1])
     /\ RoundsOK(k, vec, w2, its, 2, Learnt(k, vec, its[1], one, w2),
                  /\ Len(its) > 1 /\ its[2] = its[1]
                  /\ \E cs \in C : SameMeans(vec, SeqSet(cs), its[1]) /\ MpcStep(k, vec, cs, m, w2, its[1]))
=============================================================================
