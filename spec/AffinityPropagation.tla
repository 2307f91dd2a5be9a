------------------------ MODULE AffinityPropagation -------------------------
(***************************************************************************)
(* Affinity propagation (Frey and Dueck) under constraints, as the         *)
(* implementation runs it: message passing between points with damping     *)
(* one half.  Messages are fixed-point integers, so the result is only     *)
(* compared where it does not hang on a tie (the harness tells).           *)
(* d: distances between the items, a function of pairs of items, in some   *)
(* unit.  Points are numbered; with absolute must-links they are the       *)
(* must-link groups, otherwise the items and then the groups.              *)
(***************************************************************************)
EXTENDS Density

Ascending(S) == SetToSortSeq(S, LAMBDA x, y : x < y)
GroupGap(d, g, h) == Min({d[x, y] : x \in g, y \in h})
(* similarities between the points, diagonal not meaningful, and the       *)
(* median of a table (twice the median: the mean of the two middle values) *)
Median2(n, count) ==                   \* count[v]: how often v occurs among n values
  LET vals == Ascending(DOMAIN count)
      below(i) == FoldSet(LAMBDA j, s : s + count[vals[j]], 0, 1 .. i)
      at(p) == vals[Min({i \in DOMAIN vals : below(i) >= p})]
  IN at((n + 1) \div 2) + at(n \div 2 + 1)
TableMedian2(P, s(_, _)) ==            \* twice the median of s over all pairs of P
  LET vals == TLCEval([p \in P \X P |-> s(p[1], p[2])])
      count == [v \in {vals[p] : p \in P \X P} |-> Cardinality({p \in P \X P : vals[p] = v})]
  IN Median2(Cardinality(P) * Cardinality(P), count)

(* ---- message passing: S a sequence of sequences, with the preference on *)
(* the diagonal                                                            *)
MaxOf(a, b) == IF a > b THEN a ELSE b
Best(row) == CHOOSE i \in DOMAIN row : \A j \in DOMAIN row : row[j] <= row[i]
Responsibility(S, A, R) ==
  LET N == Len(S)
      row(i) == LET t == TLCEval([j \in 1 .. N |-> A[i][j] + S[i][j]])
                    b == Best(t)
                    y2 == Max({t[j] : j \in 1 .. N \ {b}})
                IN [j \in 1 .. N |-> (R[i][j] + S[i][j] - (IF j = b THEN y2 ELSE t[b])) \div 2]
  IN [i \in 1 .. N |-> TLCEval(row(i))]
Availability(A, R) ==
  LET N == Len(R)
      P(i, j) == IF i = j THEN R[i][i] ELSE MaxOf(0, R[i][j])
      col == TLCEval([j \in 1 .. N |-> SumSeq([i \in 1 .. N |-> P(i, j)])])
      new(i, j) == IF i = j THEN col[j] - P(j, j) ELSE - MaxOf(0, P(i, j) - col[j])
  IN [i \in 1 .. N |-> TLCEval([j \in 1 .. N |-> (A[i][j] + new(i, j)) \div 2])]
RECURSIVE Pass(_, _, _, _, _, _, _, _)
(* exemplars when they have been the same for conv rounds, {} if they have *)
(* not after maxit rounds; t rounds done, same: for how long E has lasted  *)
Pass(S, A, R, E, same, t, conv, maxit) ==
  IF t > conv /\ same >= conv /\ E # {} THEN E
  ELSE IF t = maxit THEN {}
  ELSE LET R1 == TLCEval(Responsibility(S, A, R))
           A1 == TLCEval(Availability(A, R1))
           E1 == {i \in DOMAIN S : A1[i][i] + R1[i][i] > 0}
       IN Pass(S, A1, R1, E1, IF E1 = E THEN same + 1 ELSE 1, t + 1, conv, maxit)
(* nearest exemplar of each point                                          *)
ApNearest(S, E) == [i \in DOMAIN S |-> IF i \in E THEN i ELSE CHOOSE x \in E : \A y \in E : S[i][y] <= S[i][x]]
ApCentral(S, c, x) ==                    \* the most central point of the cluster of exemplar x
  LET C == {i \in DOMAIN S : c[i] = x}
      sum(j) == FoldSet(LAMBDA i, s : s + S[i][j], 0, C)
  IN CHOOSE j \in C : \A l \in C : sum(l) <= sum(j)
(* exemplar of each point; <<>>: no convergence                            *)
Propagate(S, conv, maxit) ==
  LET N == Len(S)
      zero == [i \in 1 .. N |-> [j \in 1 .. N |-> 0]]
      E == IF N = 1 THEN {} ELSE Pass(S, zero, zero, {}, 0, 0, conv, maxit)
  IN IF E = {} THEN <<>>
     ELSE LET c == TLCEval(ApNearest(S, E)) IN TLCEval(ApNearest(S, {ApCentral(S, c, x) : x \in E}))

(* ---- the clustering: an identifier of its cluster per item              *)
ApRun(k, d, aml, conv, maxit) ==
  LET I == DOMAIN k.rep
      reps == Ascending({k.rep[x] : x \in I})
      items == Ascending(I)
      n == Len(items)
      g == Len(reps)
      grp == [i \in 1 .. g |-> Group(k, reps[i])]
      gd == TLCEval([i, j \in 1 .. g |-> GroupGap(d, grp[i], grp[j])])
      pref == - (IF aml THEN TableMedian2(1 .. g, LAMBDA i, j : gd[i, j]) ELSE TableMedian2(I, LAMBDA x, y : d[x, y])) \div 2
      far == Max({d[x, y] : x, y \in I})
      idx(x) == CHOOSE i \in 1 .. n : items[i] = x
      gidx(x) == CHOOSE i \in 1 .. g : reps[i] = k.rep[x]
      point(i, j) ==                   \* distance between two points, items first
        IF i <= n /\ j <= n THEN d[items[i], items[j]]
        ELSE IF i > n /\ j > n THEN 2 * far
        ELSE IF i > n THEN GroupGap(d, grp[i - n], {items[j]}) ELSE GroupGap(d, grp[j - n], {items[i]})
      N == IF aml THEN g ELSE n + g
      S == TLCEval([i \in 1 .. N |-> TLCEval([j \in 1 .. N |-> IF i = j THEN pref ELSE - (IF aml THEN gd[i, j] ELSE point(i, j))])])
      even == \A x, y, z, w \in I : x # y /\ z # w => d[x, y] = d[z, w]
      c == Propagate(S, conv, maxit)
  IN IF even THEN [x \in I |-> IF aml THEN k.rep[x] ELSE x]
     ELSE IF c = <<>> THEN [x \in I |-> 0]
     ELSE [x \in I |-> IF aml THEN c[gidx(x)] ELSE c[idx(x)]]
(* a recorded distance, in 1/16384, against the exact square               *)
Rounded(v, d2) == LET q == v \div 128 IN q * q <= 16384 * d2 /\ (q + 2) * (q + 2) > 16384 * d2
(* same partition                                                          *)
SamePartition(I, f, h) == \A x, y \in I : (f[x] = f[y]) <=> (h[x] = h[y])
=============================================================================
